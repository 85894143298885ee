"use strict";
const id = (s) => s;
module.exports = new Proxy(id, { get: (_, k) => (k === "default" ? module.exports : k === "__esModule" ? undefined : id) });
