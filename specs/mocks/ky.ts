// HTTP client: records requests, answers what the specification decides.
import { record } from "vf";
export const control: any = { answer: undefined };
const send = (method: string) => (url: any, options?: any) => {
  record("http." + method, url, options);
  try { const a = control.answer === undefined ? undefined : control.answer(url, options); return a !== undefined && typeof a.json === "function" && a.then === undefined ? a : Promise.resolve(a); } catch (e) { return Promise.reject(e); }
};
const ky: any = { get: send("get"), post: send("post"), put: send("put"), patch: send("patch"), delete: send("delete"), head: send("head") };
export default ky;
export class HTTPError extends Error { constructor(public response: any) { super("HTTP error"); } }
