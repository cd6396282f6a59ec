// pg-promise: connections that record their use and answer what the specification decides.
import { record } from "vf";
export const control: any = { fails: [], rows: undefined, conns: [], parsers: {} };
class Pool { ended = 0; async end() { this.ended++; record("pool.end"); if (control.fails.includes("end")) throw new Error("end failed"); } }
export class Connection {
  $pool = new Pool();
  constructor(public url: any, public options: any, public init: any) { control.conns.push(this); record("connect", url, options); }
  run(kind: string, sql: any, values: any, cb: any) {
    record("db." + kind, sql, values);
    if (control.fails.includes(sql)) throw new Error("query failed");
    const row = control.rows === undefined ? null : control.rows(sql, values);
    return cb === undefined ? row : cb(row);
  }
  async none(sql: any, values?: any) { return this.run("none", sql, values, undefined); }
  async one(sql: any, values?: any, cb?: any) { return this.run("one", sql, values, cb); }
  async oneOrNone(sql: any, values?: any, cb?: any) { return this.run("oneOrNone", sql, values, cb); }
  async any(sql: any, values?: any, cb?: any) { return this.run("any", sql, values, cb); }
  async manyOrNone(sql: any, values?: any, cb?: any) { return this.run("manyOrNone", sql, values, cb); }
  async many(sql: any, values?: any, cb?: any) { return this.run("many", sql, values, cb); }
  async result(sql: any, values?: any, cb?: any) { return this.run("result", sql, values, cb); }
  async tx(f: any) { record("tx.begin"); const t = new Task(this); try { const x = await f(t); record("tx.commit"); return x; } catch (e) { record("tx.rollback"); throw e; } }
}
export class Task { constructor(public db: any) {} isTask = true; none(sql: any, values?: any) { return this.db.none(sql, values); } oneOrNone(sql: any, values?: any, cb?: any) { return this.db.oneOrNone(sql, values, cb); } one(sql: any, values?: any, cb?: any) { return this.db.one(sql, values, cb); } any(sql: any, values?: any, cb?: any) { return this.db.any(sql, values, cb); } manyOrNone(sql: any, values?: any, cb?: any) { return this.db.manyOrNone(sql, values, cb); } }
class PreparedStatement { name: any; text: any; values: any; constructor(o: any) { this.name = o.name; this.text = o.text; this.values = o.values; } }
export default function pgPromise(init?: any) {
  control.parsers = {};
  const main: any = (url: any, options?: any) => new Connection(url, options, init);
  main.pg = { types: { builtins: { INT8: 20, INT4: 23, INT2: 21, FLOAT4: 700, FLOAT8: 701, NUMERIC: 1700, TEXT: 25, BOOL: 16 }, setTypeParser: (oid: any, f: any) => { control.parsers[oid] = f; } } };
  return main;
}
(pgPromise as any).PreparedStatement = PreparedStatement;
