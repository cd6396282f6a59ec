// ajv: a validator whose verdict the specification decides.
import { record } from "vf";
export const control: any = { valid: true };
export default class Ajv { constructor(public options?: any) {} addFormat() { return this; } addKeyword() { return this; } validate(_schema: any, data: any) { record("validated", data); return control.valid; } errorsText() { return "what is wrong"; } }
