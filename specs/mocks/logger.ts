// Stand-in for the default logger: records every message, writes nothing (the logger itself is verified separately).
import { record } from "vf";
class RecordingLogger {
  debug(m: unknown): void { record("log.debug", m); }
  info(m: unknown): void { record("log.info", m); }
  warn(m: unknown): void { record("log.warn", m); }
  error(m: unknown): void { record("log.error", m); }
  log(m: unknown): void { record("log.log", m); }
}
export const logger = new RecordingLogger();
