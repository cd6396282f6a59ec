// CloudWatch Synthetics: records its settings and steps; a step runs its function, and fails when that fails.
import { record } from "vf";
export const control: any = { response: undefined };
const conf: any = {};
for (const n of ["withIncludeRequestBody", "withIncludeRequestHeaders", "withIncludeResponseBody", "withIncludeResponseHeaders", "withFailedCanaryMetric"]) conf[n] = (v: any) => { record("configure", n, v); return conf; };
conf.disableRequestMetrics = () => { record("configure", "disableRequestMetrics", true); return conf; };
const synthetics: any = {
  getConfiguration: () => conf,
  executeHttpStep: async (name: string, options: any, callback: any) => { record("httpStep", name, options); if (control.response !== undefined) await callback(control.response); },
  executeStep: (name: string, f: any, options: any) => { let failed = false; try { f(); } catch (e) { failed = true; } record("step", name, failed, options); },
};
export default synthetics;
