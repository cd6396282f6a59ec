// The logger of the run-time environment, recorded; fails on entries marked by the specification.
import { record } from "vf";
const at = (level: string) => (m: any) => { if (m.customBroken === true) throw new Error("broken logger"); record("log." + level, m); };
export const logger = { debug: at("debug"), info: at("info"), warn: at("warn"), error: at("error") };
