// node:querystring: what a query text means is decided by the specification (an arbitrary reading); written queries are recorded.
import { record } from "vf";
export const control: any = { read: undefined };
export const parse = (q: string) => { record("parse", q); return control.read(q); };
export const stringify = (o: any) => { record("stringify", { ...o }); return control.written(o); };
export default { parse, stringify };
