// Model of the parts of the zod package the verified code uses. Used symbolically only: concrete runs use the real package.
class Issue { constructor(public code: string, public message: string, public path: any[]) {} }
export class ZodError extends Error {
  issues: any[];
  constructor(issues: any[]) { super("validation failed"); this.name = "ZodError"; this.issues = issues; }
  get errors() { return this.issues; }
}
export const NEVER = Object.freeze({ status: "aborted" });
class Type {
  constructor(public run: (v: any, issues: any[]) => any, public acceptsUndefined: boolean = false) {}
  safeParse(v: any) {
    const issues: any[] = [];
    const data = this.run(v, issues);
    return issues.length ? { success: false, error: new ZodError(issues) } : { success: true, data };
  }
  parse(v: any) {
    const r: any = this.safeParse(v);
    if (!r.success) throw r.error;
    return r.data;
  }
  async parseAsync(v: any) { return this.parse(v); }
  async safeParseAsync(v: any) { return this.safeParse(v); }
  transform(f: any) {
    return new Type((v, issues) => {
      const before = issues.length;
      const x = this.run(v, issues);
      if (issues.length > before) return undefined;
      const ctx = { addIssue: (i: any) => { issues.push(typeof i === "string" ? new Issue("custom", i, []) : new Issue(i.code, i.message, [])); }, issues, path: [] };
      return f(x, ctx);
    });
  }
  refine(f: any, m?: any) {
    return new Type((v, issues) => {
      const before = issues.length;
      const x = this.run(v, issues);
      if (issues.length > before) return undefined;
      if (!f(x)) issues.push(new Issue("custom", typeof m === "string" ? m : (m?.message ?? m?.error ?? "Invalid input"), []));
      return x;
    });
  }
  superRefine(f: any) {
    return new Type((v, issues) => {
      const before = issues.length;
      const x = this.run(v, issues);
      if (issues.length > before) return undefined;
      f(x, { addIssue: (i: any) => { issues.push(new Issue(i.code, i.message, i.path ?? [])); }, path: [] });
      return x;
    });
  }
  pipe(t: any) {
    return new Type((v, issues) => {
      const before = issues.length;
      const x = this.run(v, issues);
      if (issues.length > before) return undefined;
      return t.run(x, issues);
    });
  }
  optional() { return new Type((v, issues) => (v === undefined ? undefined : this.run(v, issues)), true); }
  nullable() { return new Type((v, issues) => (v === null ? null : this.run(v, issues))); }
  nullish() { return new Type((v, issues) => (v === undefined || v === null ? v : this.run(v, issues)), true); }
  default(d: any) { return new Type((v, issues) => (v === undefined ? (typeof d === "function" ? d() : d) : this.run(v, issues)), true); }
  or(t: any) { return union([this, t]); }
  min(n: number, m?: any) { return this.refine((x: any) => (typeof x === "number" || x instanceof Date ? x >= n : x.length >= n), m ?? "Too small"); }
  max(n: number, m?: any) { return this.refine((x: any) => (typeof x === "number" || x instanceof Date ? x <= n : x.length <= n), m ?? "Too big"); }
  regex(re: RegExp, m?: any) { return this.refine((x: any) => re.test(x), m ?? "Invalid string"); }
  gte(n: number, m?: any) { return this.min(n, m); }
  lte(n: number, m?: any) { return this.max(n, m); }
  gt(n: number, m?: any) { return this.refine((x: any) => x > n, m ?? "Too small"); }
  lt(n: number, m?: any) { return this.refine((x: any) => x < n, m ?? "Too big"); }
  readonly() { return this; }
  describe() { return this; }
  meta() { return this; }
  length(n: number, m?: any) { return this.refine((x: any) => x.length === n, m ?? "Wrong length"); }
  int(m?: any) { return this.refine((x: any) => Number.isInteger(x), m ?? "Expected int"); }
  nonempty(m?: any) { return this.min(1, m); }
  array() { return array(this); }
  catch(d: any) { return new Type((v) => { const l: any[] = []; const x = this.run(v, l); return l.length ? d : x; }, true); }
}
const base = (ok: (v: any) => boolean, what: string, m?: any) => new Type((v, issues) => {
  if (!ok(v)) { issues.push(new Issue("invalid_type", typeof m === "string" ? m : (m?.message ?? `Invalid input: expected ${what}`), [])); return undefined; }
  return v;
});
export const string = (m?: any) => base((v) => typeof v === "string", "string", m);
export const number = (m?: any) => base((v) => typeof v === "number" && Number.isFinite(v), "number", m);
export const boolean = (m?: any) => base((v) => typeof v === "boolean", "boolean", m);
export const date = (m?: any) => base((v) => v instanceof Date && !Number.isNaN(v.getTime()), "date", m);
export const any = () => new Type((v) => v, true);
export const unknown = () => new Type((v) => v, true);
export const email = (m?: any) => base((v) => typeof v === "string" && /^[A-Za-z0-9_+-]+(\.[A-Za-z0-9_+-]+)*@[A-Za-z0-9-]+(\.[A-Za-z0-9-]+)*\.[A-Za-z]{2,}$/.test(v), "email", m);
export const literal = (l: any) => base((v) => v === l, "literal");
const enum_ = (vs: any, m?: any) => base((v) => (Array.isArray(vs) ? vs : Object.values(vs)).includes(v), "option", m);
export { enum_ as enum, enum_ as nativeEnum };
const nest = (issues: any[], from: number, key: any) => { for (let i = from; i < issues.length; i++) issues[i] = new Issue(issues[i].code, issues[i].message, [key, ...issues[i].path]); };
export function union(ts: any[]) {
  return new Type((v, issues) => {
    for (const t of ts) { const l: any[] = []; const x = t.run(v, l); if (l.length === 0) return x; }
    issues.push(new Issue("invalid_union", "Invalid input", []));
    return undefined;
  });
}
export const array = (t: any) => new Type((v, issues) => {
  if (!Array.isArray(v)) { issues.push(new Issue("invalid_type", "Invalid input: expected array", [])); return undefined; }
  const rs = v.map((x) => { const l: any[] = []; const y = t.run(x, l); return { bad: l.length > 0, y }; });
  if (rs.some((r: any) => r.bad)) issues.push(new Issue("invalid_element", "Invalid input", []));
  return rs.map((r: any) => r.y);
});
export const tuple = (ts: any[]) => new Type((v, issues) => {
  if (!Array.isArray(v) || v.length !== ts.length) { issues.push(new Issue("invalid_type", "Invalid input: expected tuple", [])); return undefined; }
  return ts.map((t, i) => t.run(v[i], issues));
});
export const record = (k: any, t: any) => new Type((v, issues) => {
  if (typeof v !== "object" || v === null || Array.isArray(v)) { issues.push(new Issue("invalid_type", "Invalid input: expected record", [])); return undefined; }
  const rs = Object.entries(v).map(([n, x]) => { const l: any[] = []; const m = k.run(n, l); const y = t.run(x, l); return { bad: l.length > 0, e: [m, y] }; });
  if (rs.some((r: any) => r.bad)) issues.push(new Issue("invalid_element", "Invalid input", []));
  return Object.fromEntries(rs.map((r: any) => r.e));
});
export const lazy = (f: any) => new Type((v, issues) => f().run(v, issues));
export const intersection = (a: any, b: any) => new Type((v, issues) => { const x = a.run(v, issues), y = b.run(v, issues); return { ...x, ...y }; });
export const coerce = {
  number: (m?: any) => new Type((v, issues) => number(m).run(Number(v), issues), true),
  string: (m?: any) => new Type((v, issues) => string(m).run(String(v), issues), true),
  boolean: () => new Type((v) => Boolean(v), true),
  date: (m?: any) => new Type((v, issues) => date(m).run(new Date(v), issues), true),
};
export function flattenError(e: any) {
  const formErrors: any[] = [], fieldErrors: any = {};
  for (const i of e.issues) if (i.path.length > 0) (fieldErrors[i.path[0]] ??= []).push(i.message); else formErrors.push(i.message);
  return { formErrors, fieldErrors };
}
class ObjectType extends Type {
  constructor(public shape: any, public closed: boolean = false) {
    super((v, issues) => {
      if (typeof v !== "object" || v === null || Array.isArray(v)) { issues.push(new Issue("invalid_type", "Invalid input: expected object", [])); return undefined; }
      const out: any = {};
      for (const k of Object.keys(shape)) {
        const n = issues.length;
        const x = shape[k].run(v[k], issues);
        nest(issues, n, k);
        if (x !== undefined || Object.hasOwn(v, k)) out[k] = x;
      }
      if (closed && Object.keys(v).some((k) => !Object.hasOwn(shape, k))) issues.push(new Issue("unrecognized_keys", "Unrecognized key", []));
      return out;
    });
  }
  strict() { return new ObjectType(this.shape, true); }
  extend(more: any) { return new ObjectType({ ...this.shape, ...more }, this.closed); }
  omit(keys: any) { return new ObjectType(Object.fromEntries(Object.entries(this.shape).filter(([k]) => !keys[k])), this.closed); }
  pick(keys: any) { return new ObjectType(Object.fromEntries(Object.entries(this.shape).filter(([k]) => keys[k])), this.closed); }
  partial() { return new ObjectType(Object.fromEntries(Object.entries(this.shape).map(([k, t]: any) => [k, t.optional()])), this.closed); }
  describe() { return this as any; }
}
export const object = (shape: any): any => new ObjectType(shape);
export const z = { string, number, boolean, date, any, unknown, literal, enum: enum_, nativeEnum: enum_, union, array, tuple, record, lazy, object, intersection, coerce, flattenError, email, NEVER, ZodError };
export default z;
