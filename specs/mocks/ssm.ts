// The parameter store: records what is asked and answers what the specification decides.
import { record } from "vf";
export const control: any = { stored: undefined, fails: [] };
export class GetParameterCommand { kind = "get"; constructor(public input: any) {} }
export class PutParameterCommand { kind = "put"; constructor(public input: any) {} }
export class SSMClient {
  constructor(public options?: any) {}
  async send(c: any) {
    record("ssm." + c.kind, c.input);
    if (control.fails.includes(c.kind)) throw new Error("refused");
    return c.kind === "get" ? (control.stored === undefined ? {} : { Parameter: { Value: control.stored } }) : {};
  }
}
