// AWS clients: records commands, answers what the specification decides.
import { record } from "vf";
export const control: any = { answer: undefined };
class Command { constructor(public input: any) {} }
export class PutObjectCommand extends Command { kind = "PutObject"; }
export class GetObjectCommand extends Command { kind = "GetObject"; }
export class GetApiKeyCommand extends Command { kind = "GetApiKey"; }
export class GetDocumentationVersionsCommand extends Command { kind = "GetDocumentationVersions"; }
class Client {
  constructor(public options?: any) {}
  async send(c: any) { record("aws." + c.kind, c.input); return control.answer === undefined ? undefined : control.answer(c.input); }
}
export class S3Client extends Client {}
export class APIGatewayClient extends Client {}
export class S3 extends Client {}
export class FetchHttpHandler {}
