// node:url: the form encoding of simple fields.
export class URLSearchParams {
  constructor(public fields: any) {}
  toString() { return Object.entries(this.fields).map(([k, v]: any) => `${encodeURIComponent(k)}=${encodeURIComponent(v)}`).join("&"); }
}
