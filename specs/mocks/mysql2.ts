// mysql2: connections that record their use and answer what the specification decides.
import { record } from "vf";
export const control: any = { rows: undefined, fails: undefined };
export class Connection {
  async run(op: string, sql?: any, values?: any) {
    record("db." + op, sql, values);
    if (control.fails !== undefined && control.fails(op, sql, values)) throw new Error(op + " failed");
    return [control.rows === undefined ? [] : control.rows(sql, values), []];
  }
  query(sql: any, values?: any) { return this.run("query", sql, values); }
  execute(sql: any, values?: any) { return this.run("execute", sql, values); }
  async beginTransaction() { await this.run("begin"); }
  async commit() { await this.run("commit"); }
  async rollback() { await this.run("rollback"); }
  release() { record("db.release"); }
  destroy() { record("db.release"); }
}
class Pool {
  constructor(public options: any) {}
  async getConnection() { record("db.connect"); if (control.fails !== undefined && control.fails("connect")) throw new Error("connect failed"); return new Connection(); }
  async end() { record("db.end"); }
}
export const createPool = (options: any) => new Pool(options);
