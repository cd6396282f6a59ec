// The queue: records what is sent and answers what the specification decides.
import { record } from "vf";
export const control: any = { answer: undefined };
export class SendMessageCommand { constructor(public input: any) {} }
export class SQSClient {
  constructor(public options?: any) {}
  async send(c: any) { record("sqs", c.input); return control.answer === undefined ? {} : control.answer(c.input); }
}
