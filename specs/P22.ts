// Database, proxy, name and network stacks: what they build and what they tell other stacks.
import { spec, str, int, bool, opt, or, lit, arr, tuple, obj, oneOf, same } from "vf";
import { app, made, recorded, distinct } from "./infra.ts";
import { networkControl } from "./mocks/cdk.ts";
import { DbStack, parseClusterIdentifier } from "repo:lib/digitraffic-common/src/aws/infra/stacks/db-stack.ts";
import { DbProxyStack } from "repo:lib/digitraffic-common/src/aws/infra/stacks/db-proxy-stack.ts";
import { DbDnsStack } from "repo:lib/digitraffic-common/src/aws/infra/stacks/db-dns-stack.ts";
import { NetworkStack } from "repo:lib/digitraffic-common/src/aws/infra/stacks/network-stack.ts";
import { getParameterValue } from "repo:lib/digitraffic-common/src/aws/infra/stack/parameters.ts";
import { importValue } from "repo:lib/digitraffic-common/src/aws/infra/import-util.ts";
const isc = (environmentName: string): any => ({ env: { account: "account", region: "region" }, environmentName });
// what another stack reads under a name
const exported = (r: any, environment: string, name: string) => made(r, "CfnOutput").filter((x: any) => `import(${x.props.exportName})` === importValue(environment, name)).map((x: any) => x.props.value);
const parameter = (r: any, name: string) => made(r, "StringParameter").filter((x: any) => `ssm(${x.props.parameterName})` === getParameterValue(undefined as any, name as any)).map((x: any) => x.props.stringValue);
const db = "/digitraffic/db/";
export const identifier = spec({
  target: "parseClusterIdentifier",
  inputs: { none: bool(), endpoint: str(), fallback: opt(str()) },
  call: (i) => parseClusterIdentifier(i.none ? undefined : { clusterReadEndpoint: "reader", clusterWriteEndpoint: i.endpoint }, i.fallback),
  ensures: {
    value: (o, r) => {
      const at = o.none ? -1 : o.endpoint.indexOf(".cluster");
      return at > 0 ? r.ok && r.value === o.endpoint.slice(0, at) : o.fallback ? r.ok && r.value === o.fallback : !r.ok;
    },
  },
});
const size = obj({ instanceType: str(), isFromLegacyInstanceProps: opt(bool()) });
export const database = spec({
  target: "DbStack",
  inputs: { environment: str(), secret: str(), group: str(), snapshot: opt(str()), version: str(), writer: size, readers: arr(size), encrypted: opt(bool()), workmem: opt(int(1)), major: str(), ownVpc: bool() },
  call: (i) => new DbStack(app(), "db", isc(i.environment), { secretArn: i.secret, storageEncrypted: i.encrypted, workmem: i.workmem, customParameterGroups: [{ auroraPostgresMajorVersion: i.major }] as any, ...(i.ownVpc ? { vpc: { vpcId: "own vpc" } as any } : {}), cluster: { securityGroupId: i.group, snapshotIdentifier: i.snapshot, dbVersion: i.version as any, writer: i.writer as any, readers: i.readers as any } }) as any,
  ensures: {
    one: (o, r) => { const [a, b] = [made(r, "DatabaseCluster"), made(r, "DatabaseClusterFromSnapshot")]; return r.ok && same(made(r, "Stack")[0].props.env, { account: "account", region: "region" }) && (o.snapshot ? a.length === 0 && b.length === 1 && b[0].props.snapshotIdentifier === o.snapshot : a.length === 1 && b.length === 0) && r.value.clusterIdentifier === [...a, ...b][0].it.clusterIdentifier; },
    kept: (o, r) => { const p = made(r, o.snapshot ? "DatabaseClusterFromSnapshot" : "DatabaseCluster")[0].props; return p.deletionProtection === true && p.removalPolicy === "retain" && p.backup.retention.toMilliseconds() === 35 * 86400000 && p.port === 5432 && p.vpcSubnets.subnetType === "Private" && p.instanceUpdateBehaviour === "ROLLING" && p.engine.version === o.version; },
    encrypted: (o, r) => { const p = made(r, o.snapshot ? "DatabaseClusterFromSnapshot" : "DatabaseCluster")[0].props, k = made(r, "Key"); return p.storageEncrypted === (o.encrypted ?? true) && (o.encrypted ? k.length === 1 && p.storageEncryptionKey === k[0].it && k[0].props.enableKeyRotation === true && k[0].props.removalPolicy === "retain" && k[0].props.alias === `${o.environment}/db` : k.length === 0 && p.storageEncryptionKey === undefined); },
    access: (o, r) => { const p = made(r, o.snapshot ? "DatabaseClusterFromSnapshot" : "DatabaseCluster")[0].props; return p.securityGroups.length === 1 && p.securityGroups[0].securityGroupId === o.group && p.vpc.vpcId === (o.ownVpc ? "own vpc" : importValue(o.environment, "VPCID")) && same(recorded(r, "import").filter((x: any) => x[0] === "Secret").map((x: any) => x[2]), [o.secret]) && p.credentials.user === "unsafe(db.superuser)" && p.credentials.password.field === "db.superuser.password"; },
  },
});
export const instances = spec({
  target: "DbStack",
  inputs: { writer: size, readers: arr(size), workmem: opt(int(1)), majors: arr(str()) },
  call: (i) => new DbStack(app(), "db", isc("env"), { secretArn: "secret", workmem: i.workmem, customParameterGroups: i.majors.map((m: string) => ({ auroraPostgresMajorVersion: m })) as any, cluster: { securityGroupId: "group", dbVersion: "version" as any, writer: i.writer as any, readers: i.readers as any } }) as any,
  ensures: {
    refused: (o, r) => r.ok === o.majors.length > 0,
    groups: (o, r) => same(made(r, "ParameterGroup").map((g: any) => [g.id, g.props.parameters.work_mem, g.props.engine.version.auroraPostgresMajorVersion]), o.majors.map((m: string) => [`parameter-group-${m}`, String(o.workmem ?? 524288), m])) && recorded(r, "bind").length === 2 * o.majors.length,
    sizes: (o, r) => {
      if (!r.ok) return true;
      const p = made(r, "DatabaseCluster")[0].props, g = `parameter-group-${o.majors[0]}`;
      const want = (x: any, i: any) => x.props.instanceType === i.instanceType && x.props.isFromLegacyInstanceProps === i.isFromLegacyInstanceProps && x.props.autoMinorVersionUpgrade === true && x.props.allowMajorVersionUpgrade === false && x.props.enablePerformanceInsights === true && x.props.parameterGroup.node.id === g;
      return p.parameterGroup.node.id === g && want(p.writer, o.writer) && p.readers.length === o.readers.length && p.readers.every((x: any, n: number) => want(x, o.readers[n]) && x.id === `ReaderInstance${n}`);
    },
  },
});
export const told = spec({
  target: "DbStack",
  inputs: { environment: str(), create: bool(), imported: bool(), write: str(), read: str() },
  call: (i) => new DbStack(app(), "db", isc(i.environment), { secretArn: "secret", customParameterGroups: [{ auroraPostgresMajorVersion: "16" }] as any, ...(i.create ? { cluster: { securityGroupId: "group", dbVersion: "version" as any, writer: { instanceType: "large" as any }, readers: [] } } : {}), ...(i.imported ? { clusterImport: { clusterReadEndpoint: i.read, clusterWriteEndpoint: i.write } } : {}) }) as any,
  ensures: {
    refused: (o, r) => r.ok === (o.create !== o.imported && (o.create || o.write.indexOf(".cluster") > 0)),
    parameters: (o, r) => {
      if (!r.ok) return o.imported || made(r, "StringParameter").length === 0;
      const c = made(r, "DatabaseCluster")[0]?.it;
      const id = o.create ? c.clusterIdentifier : o.write.slice(0, o.write.indexOf(".cluster"));
      return r.value.clusterIdentifier === id && same(parameter(r, "cluster.identifier"), [id]) && same(parameter(r, "cluster.writer"), [o.create ? c.clusterEndpoint.hostname : o.write]) && same(parameter(r, "cluster.reader"), [o.create ? c.clusterReadEndpoint.hostname : o.read]) && made(r, "StringParameter").length === 3;
    },
    exports: (o, r) => {
      if (!r.ok || o.imported) return made(r, "CfnOutput").length === 0;
      const c = made(r, "DatabaseCluster")[0].it;
      return same(exported(r, o.environment, "db-cluster"), [c.clusterIdentifier]) && same(exported(r, o.environment, "db-cluster-writer-endpoint"), [c.clusterEndpoint.hostname]) && same(exported(r, o.environment, "db-cluster-reader-endpoint"), [c.clusterReadEndpoint.hostname]) && made(r, "CfnOutput").length === 3;
    },
  },
});
export const proxy = spec({
  target: "DbProxyStack",
  inputs: { environment: str(), secret: str(), name: opt(str()), group: str(), cluster: str() },
  call: (i) => { new DbProxyStack(app(), "proxy", isc(i.environment), { secretArn: i.secret, name: i.name, securityGroupId: i.group, clusterIdentifier: i.cluster }); },
  ensures: {
    refused: (o, r) => r.ok === (o.cluster !== ""),
    proxy: (o, r) => {
      if (!r.ok) return made(r, "DatabaseProxy").length === 0;
      const m = made(r, "DatabaseProxy"), p = m[0].props, c = p.proxyTarget.cluster;
      return m.length === 1 && m[0].id === `${o.environment}-proxy` && p.dbProxyName === (o.name ?? "AuroraProxy") && same(p.securityGroups.map((g: any) => g.securityGroupId), [o.group]) && c.clusterIdentifier === o.cluster && c.port === 5432 && same(p.secrets.map((s: any) => s.secretArn), [o.secret]) && p.vpc.vpcId === importValue(o.environment, "VPCID") && p.maxConnectionsPercent >= p.maxIdleConnectionsPercent && recorded(r, "allowDefaultPort").length === 0;
    },
    reader: (o, r) => {
      if (!r.ok) return true;
      const m = made(r, "CfnDBProxyEndpoint"), p = m[0].props;
      return m.length === 1 && p.dbProxyName === (o.name ?? "AuroraProxy") && p.targetRole === "READ_ONLY" && same(p.vpcSecurityGroupIds, [o.group]) && same(p.vpcSubnetIds, ["A", "B"].map((x) => importValue(o.environment, `digitrafficprivate${x}Subnet`)));
    },
    told: (o, r) => {
      if (!r.ok) return made(r, "StringParameter").length + made(r, "CfnOutput").length === 0;
      const w = made(r, "DatabaseProxy")[0].it.endpoint;
      return same(parameter(r, "proxy.reader"), [made(r, "CfnDBProxyEndpoint")[0].it.attrEndpoint]) && same(parameter(r, "proxy.writer"), [w]) && same(exported(r, o.environment, "db-writer-endpoint"), [w]) && exported(r, o.environment, "db-reader-endpoint").length === 1;
    },
  },
});
export const dns = spec({
  target: "DbDnsStack",
  inputs: { environment: str() },
  call: (i) => { new DbDnsStack(app(), "dns", isc(i.environment)); },
  ensures: {
    zone: (o, r) => { const z = made(r, "PrivateHostedZone"); return r.ok && z.length === 1 && z[0].props.zoneName === `${o.environment}.local` && z[0].props.vpc.vpcId === importValue(o.environment, "VPCID") && same(recorded(r, "removalPolicy"), [[z[0].id, "retain"]]); },
    records: (o, r) => { const z = made(r, "PrivateHostedZone")[0].it, p = (n: string) => getParameterValue(undefined as any, n as any); return made(r, "RecordSet").length === 4 && [["db", "cluster.writer"], ["db-ro", "cluster.reader"], ["proxy", "proxy.writer"], ["proxy-ro", "proxy.reader"]].every(([n, of]) => same(made(r, "RecordSet").filter((x: any) => x.props.recordName === `${n}.${o.environment}.local`).map((x: any) => [x.props.recordType, x.props.target]), [["CNAME", [p(of!)]]])) && made(r, "RecordSet").every((x: any) => x.props.zone === z && x.props.ttl.toMilliseconds() === 30000) && distinct(made(r, "RecordSet").map((x: any) => x.id)); },
  },
});
const count = or(lit(0), lit(1), lit(2));
export const network = spec({
  target: "NetworkStack",
  inputs: { environment: str(), name: str(), cidr: str(), gateway: opt(str()), public: count, private: count },
  call: (i) => { networkControl.publicSubnets = i.public; networkControl.privateSubnets = i.private; new NetworkStack(app(), "network", isc(i.environment), { vpcName: i.name, cidr: i.cidr, transitGatewayId: i.gateway }); },
  ensures: {
    refused: (o, r) => r.ok === (o.public === 2 && o.private === 2),
    vpc: (o, r) => { const m = made(r, "Vpc"), p = m[0].props; return m.length === 1 && p.vpcName === o.name && p.ipAddresses.cidr === o.cidr && p.natGateways === (o.gateway ? 0 : 2) && same(p.availabilityZones, ["zone-a", "zone-b"]) && same(p.subnetConfiguration.map((s: any) => s.subnetType).sort(), ["Private", "Public"]); },
    routes: (o, r) => same(made(r, "CfnRoute").map((x: any) => x.props), o.gateway ? ["A", "B"].slice(0, o.private).map((x) => ({ routeTableId: `table(private${x})`, destinationCidrBlock: "0.0.0.0/0", transitGatewayId: o.gateway })) : []),
    exports: (o, r) => !r.ok || (made(r, "CfnOutput").length === 5 && same(exported(r, o.environment, "VPCID"), [made(r, "Vpc")[0].it.vpcId]) && ["public", "private"].every((k) => ["A", "B"].every((x) => same(exported(r, o.environment, `digitraffic${k}${x}Subnet`), [`${k}${x}`])))),
  },
});
