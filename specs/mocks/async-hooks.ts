// Storage that follows a chain of asynchronous work. Used for log fields only: what is stored is not read back.
export class AsyncLocalStorage { run(_store: any, f: any, ...args: any[]) { return f(...args); } getStore() { return undefined; } enterWith(_store: any) {} }
