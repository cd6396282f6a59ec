// aws-cdk-lib/aws-cloudfront, aws-cloudfront-origins and aws-certificatemanager over the recording CDK.
import { Construct } from "./cdk.ts";
export const AllowedMethods = { ALLOW_GET_HEAD: "GET,HEAD", ALLOW_GET_HEAD_OPTIONS: "GET,HEAD,OPTIONS", ALLOW_ALL: "ALL" };
export const CachedMethods = { CACHE_GET_HEAD: "GET,HEAD", CACHE_GET_HEAD_OPTIONS: "GET,HEAD,OPTIONS" };
export const FunctionEventType = { VIEWER_REQUEST: "viewer-request", VIEWER_RESPONSE: "viewer-response" };
export const LambdaEdgeEventType = { ORIGIN_REQUEST: "origin-request", ORIGIN_RESPONSE: "origin-response", VIEWER_REQUEST: "viewer-request", VIEWER_RESPONSE: "viewer-response" };
export const HttpVersion = { HTTP1_1: "http1.1", HTTP2: "http2", HTTP2_AND_3: "http2and3", HTTP3: "http3" };
export const OriginProtocolPolicy = { HTTP_ONLY: "http-only", MATCH_VIEWER: "match-viewer", HTTPS_ONLY: "https-only" };
export const ViewerProtocolPolicy = { HTTPS_ONLY: "https-only", REDIRECT_TO_HTTPS: "redirect-to-https", ALLOW_ALL: "allow-all" };
export const OriginRequestPolicy = { ALL_VIEWER: "all-viewer", ALL_VIEWER_EXCEPT_HOST_HEADER: "all-viewer-except-host", CORS_S3_ORIGIN: "cors-s3", CORS_CUSTOM_ORIGIN: "cors-custom", USER_AGENT_REFERER_HEADERS: "ua-referer" };
export const ResponseHeadersPolicy = { CORS_ALLOW_ALL_ORIGINS: "cors", CORS_ALLOW_ALL_ORIGINS_WITH_PREFLIGHT: "cors-preflight", SECURITY_HEADERS: "security" };
export const FunctionRuntime = { JS_1_0: "js1", JS_2_0: "js2" };
export const FunctionCode = { fromInline: (code: string) => ({ kind: "inline", code }) };
class Fun extends Construct { constructor(s: any, id: string, p: any) { super("EdgeFunction", s, id, p); } }
export { Fun as Function };
export const CacheHeaderBehavior = { none: () => ({ behavior: "none" }), allowList: (...headers: string[]) => ({ behavior: "whitelist", headers }) };
export const CacheQueryStringBehavior = { none: () => ({ behavior: "none" }), all: () => ({ behavior: "all" }), allowList: (...queryStrings: string[]) => ({ behavior: "whitelist", queryStrings }), denyList: (...queryStrings: string[]) => ({ behavior: "allExcept", queryStrings }) };
export class CachePolicy extends Construct { constructor(s: any, id: string, p: any) { super("CachePolicy", s, id, p); } }
export class Distribution extends Construct {
  constructor(s: any, id: string, p: any) { super("Distribution", s, id, p); const node: any = this.node; node.defaultChild = { overrideLogicalId: (name: string) => { node.logicalId = name; } }; }
}
export class CfnVpcOrigin extends Construct { ref: string; constructor(s: any, id: string, p: any) { super("CfnVpcOrigin", s, id, p); this.ref = this.attr("ref"); } }
export class VpcOrigin {
  kind = "vpc";
  constructor(public of: any, public props: any) {}
  static fromVpcOriginId(s: any, id: string, ref: any) { return { vpcOriginRef: ref, node: { id } }; }
  static withVpcOrigin(of: any, props: any) { return new VpcOrigin(of.vpcOriginRef, props); }
}
export class HttpOrigin { kind = "http"; constructor(public of: any, public props: any) {} }
export const S3BucketOrigin = { withOriginAccessControl: (bucket: any, props: any) => ({ kind: "s3", of: bucket.attributes, props }) };
export const Certificate = { fromCertificateArn: (s: any, id: string, certificateArn: any) => ({ certificateArn, node: { id } }) };
