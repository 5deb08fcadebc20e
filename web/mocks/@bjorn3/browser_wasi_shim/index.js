export class File { constructor(data) { this.data = new Uint8Array(data); } }
export class OpenFile { constructor(file) { this.file = file; } }
export class PreopenDirectory { constructor(path, contents) { this.path = path; this.dir = contents; } }
export class Directory { constructor(contents) { this.contents = contents; } }
export class Fd {}
export class ConsoleStdout extends Fd {}
export class WASI { constructor(args, env, fds) { this.fds = fds; this.wasiImport = {}; } start() {} initialize() {} }
export default { WASI, File, OpenFile, PreopenDirectory };
