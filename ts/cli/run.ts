// Runs the repository's command line tool, one evaluation per command, on files held in memory.
// @ts-nocheck
import fs from "fs";
import path from "path";
import vm from "vm";
import { Missing } from "STANDINS/base.cjs";
import { shell as simulated } from "./shell";

class Exit extends Error {
  constructor(readonly code: number) { super(`exit ${code}`); }
}
const HOME = "/home/user";
function files(m: Record<string, string>) {
  const norm = (p: any) => (String(p).startsWith("/") ? path.posix.normalize(String(p)) : path.posix.join("/work", String(p)));
  const dir = (p: string) => ["/work", HOME, "/"].includes(p) || Object.keys(m).some((f) => f.startsWith(p + "/"));
  const get = (p: any) => {
    const f = m[norm(p)];
    if (f === undefined) throw Object.assign(new Error(`ENOENT: no such file or directory, open '${p}'`), { code: "ENOENT" });
    return f;
  };
  const sync: any = {
    existsSync: (p: any) => norm(p) in m || dir(norm(p)),
    readFileSync: (p: any, o: any) => {
      const t = get(p);
      if (t.startsWith("hex:")) return Buffer.from(t.slice(4), "hex");
      return o === "utf-8" || o === "utf8" || o?.encoding ? t : Buffer.from(t);
    },
    writeFileSync: (p: any, d: any) => {
      if (!dir(path.posix.dirname(norm(p)))) throw new Error(`ENOENT: no such file or directory, open '${p}'`);
      m[norm(p)] = d.toString();
    },
    mkdirSync: (p: any) => {
      if (!dir(path.posix.dirname(norm(p))) ) throw new Error(`ENOENT: no such file or directory, mkdir '${p}'`);
      m[norm(p) + "/."] = "";
    },
    unlinkSync: (p: any) => { get(p); delete m[norm(p)]; },
    rmSync: (p: any) => { delete m[norm(p)]; },
    copyFileSync: (a: any, b: any) => { sync.writeFileSync(b, get(a)); },
    renameSync: (a: any, b: any) => { sync.writeFileSync(b, get(a)); delete m[norm(a)]; },
    appendFileSync: (p: any, d: any) => { sync.writeFileSync(p, (m[norm(p)] ?? "") + d); },
  };
  const lacks = (o: any, n: string) => new Proxy(o, { get: (t, k) => (k in t || typeof k === "symbol" || k === "default" || k === "__esModule" || k === "then" ? t[k] : () => { throw new Missing(`stand-in for ${n} lacks ${String(k)}`); }) });
  sync.promises = lacks(Object.fromEntries(Object.keys(sync).map((k) => [k.replace(/Sync$/, ""), async (...a: any[]) => sync[k](...a)])), "fs/promises");
  return lacks(sync, "fs");
}

// a promise nobody waits for
process.on("unhandledRejection", () => {});

let tool: any;
function load() {
  if (!tool) {
    const src = fs.readFileSync(path.join(__dirname, "cli.js"), "utf8");
    tool = new vm.Script(`(function(exports,require,module,__filename,__dirname,process,console,globalThis,setTimeout,Bun,CLI){${src}\n})`, { filename: "cli.js" }).runInThisContext();
  }
  return tool;
}

/** runs one command (or reads one setting) and says what happened */
async function command(q: any, world: any, store: Record<string, string>) {
  const out: string[] = [], err: string[] = [];
  const CLI: any = { world, args: q.args, fail: q.fail, flaky: q.flaky, sent: 0, ops: [], touched: [], ran: [], done: undefined, asked: 0, answer: () => { const i = CLI.asked++; return q.answers?.[i] ?? q.answer ?? "n"; } };
  const lines = (to: string[]) => (...a: any[]) => { to.push(a.map(String).join(" ")); };
  const console: any = { log: lines(out), info: lines(err), error: lines(err), warn: lines(err), debug: lines(err) };
  const process: any = {
    argv: ["node", "ntt", ...q.args], env: { HOME, ...q.env }, exit: (n: any) => { throw new Exit(n ?? 0); }, exitCode: undefined, platform: "linux", cwd: () => "/work", on() {}, once() {}, nextTick: globalThis.process.nextTick,
    stdout: { columns: 100, write: () => true }, stderr: { write: () => true }, stdin: {}, version: globalThis.process.version, versions: globalThis.process.versions,
  };
  const shell = (c: any) => { CLI.touched.push(`shell: ${c}`); throw new Exit(99); };
  const sim = q.shell ? simulated(CLI, q.shell, store) : undefined;
  const bun = sim?.bun ?? { spawn: shell, spawnSync: shell };
  const require = (n: string) => {
    n = n.replace(/^node:/, "");
    if (n === "fs") return files(store);
    if (n === "fs/promises") return files(store).promises;
    if (n === "child_process" && sim) return { execSync: sim.execSync, execFileSync: sim.execFileSync, spawnSync: sim.spawnSync };
    if (n === "child_process") return { execSync: shell, exec: shell, spawn: shell, spawnSync: shell, execFileSync: shell };
    if (["path", "crypto", "util", "buffer", "url", "os", "assert", "events", "module"].includes(n)) return globalThis.process.mainModule!.require(n);
    throw new Missing(`module ${n}`);
  };
  const module: any = { exports: {} };
  const g: any = { console, process };
  const now = (f: any, ms: any, ...a: any[]) => setImmediate(f, ...a);
  let r: any = {};
  const ran = async () => {
    load()(module.exports, require, module, "cli.js", "/work", process, console, g, now, bun, CLI);
    if (q.get) {
      // the setting in force, as the tool's own commands look it up
      CLI.done?.catch(() => {});
      err.length = 0;
      return { value: module.exports.configuration.get(q.get[0], q.get[1], { reportError: true }) ?? null };
    }
    if (!CLI.done) throw new Missing("the command was not parsed");
    await CLI.done;
    return {};
  };
  try {
    r = { ...(await ran()), exit: process.exitCode ?? 0 };
  } catch (e: any) {
    if (e instanceof Exit) r = { exit: e.code };
    else if (e?.constructor?.name === "Missing" || /is not a (function|constructor)/.test(String(e?.message))) throw new Missing(String(e.message));
    else r = { exit: 1, thrown: String(e?.message ?? e) };
    if (globalThis.process.env.NTT_TS_TRACE) globalThis.console.error(e);
  }
  return { ...r, out, err, ops: CLI.ops, asked: CLI.asked, touched: CLI.touched, ran: CLI.ran, world: structuredClone(world), files: { ...store } };
}
export async function cli(a: any) {
  const world = a.world, store = a.files;
  const rs: any[] = [];
  for (const q of a.runs) rs.push(await command(q, world, store));
  return rs;
}
