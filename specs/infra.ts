// A stack of the infrastructure library made over the recording CDK, and ways to read what was recorded.
import { Construct } from "./mocks/cdk.ts";
import { DigitrafficStack } from "repo:lib/digitraffic-common/src/aws/infra/stack/stack.ts";
export const app = (): any => new Construct("App", undefined, "", {});
export const stackOf = (conf: any, name = "TheStack"): any => new DigitrafficStack(app(), name, { shortName: "Foo", alarmTopicArn: "unused", warningTopicArn: "unused", trafficType: "Marine", production: false, stackProps: {}, ...conf } as any);
const named = (r: any, name: string) => r.trace.filter((e: any) => e.name === name).map((e: any) => e.args);
export const made = (r: any, kind: string) => named(r, "new").filter((a: any) => a[0] === kind).map((a: any) => ({ id: a[1], props: a[2], it: a[3] }));
export const recorded = named;
export const distinct = (xs: any[]) => new Set(xs).size === xs.length;
// topics known by the parameter their address is read from
export const topicName = (t: any) => t?.topicArn;
export const ALARM = "ssm(/digitraffic/monitoring/alarm-topic)", WARNING = "ssm(/digitraffic/monitoring/warning-topic)";
// alarms: what is measured of what, the limit, and where it is told
export const alarms = (r: any) => made(r, "Alarm").map((a: any) => ({ ...a.props, id: a.id, metric: a.props.metric.metricName, of: a.props.metric.owner, metricProps: a.props.metric.props, to: named(r, "alarmAction").filter((x: any) => x[0] === a.id).map((x: any) => topicName(x[1])) }));
