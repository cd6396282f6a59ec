// middy: the handler itself, with its middleware recorded.
import { record } from "vf";
export default function middy(handler?: any) { const f: any = (...a: any[]) => handler(...a); f.use = (m: any) => { record("middleware"); return f; }; return f; }
