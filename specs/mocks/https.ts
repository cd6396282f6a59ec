// node:https: records the request and answers what the specification decides.
import { record } from "vf";
export const control: any = { answer: undefined, pieces: undefined };
export const request = (options: any, done: any) => ({
  end: () => {
    record("https", options);
    const on: any = {};
    done({ on: (name: any, f: any) => { on[name] = f; } });
    const pieces = control.pieces();
    if (pieces === undefined) return on.error(new Error("broken"));
    for (const p of pieces) on.data(p);
    on.end();
  },
});
