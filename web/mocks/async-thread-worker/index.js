// The interface of async-thread-worker; messages go through the environment's simulated channel.
export class ThreadWorker {
    constructor(self) { this._env = globalThis.__env; this._env.attachWorker(this); }
    onRequest(id, payload) { }
    sendResponse(id, payload = null, transferList = []) { this._env.respond(id, payload, transferList, false); }
    sendError(id, error = null, transferList = []) { this._env.respond(id, error, transferList, true); }
}
export class Thread {
    constructor(url, options) { this._env = globalThis.__env; this._env.attachThread(this, String(url)); }
    sendRequest(payload = null, transferList = []) { return this._env.request(payload, transferList); }
    terminate() { }
}
export default { Thread, ThreadWorker };
