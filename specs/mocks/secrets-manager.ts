// AWS Secrets Manager: answers what the specification decides, records what it is asked.
import { record } from "vf";
export const control: any = { answer: undefined, calls: 0 };
export class SecretsManager {
  region: any;
  constructor(o: any) { this.region = o?.region; record("sm.new", o); }
  async getSecretValue(q: any) { control.calls++; record("sm.get", q, this.region); return control.answer(q.SecretId, control.calls); }
}
