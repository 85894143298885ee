// The programs the tool runs (git, forge, anchor, solana), as recorders with scripted outcomes. Nothing is executed.
// @ts-nocheck
import path from "path";
import { Missing } from "STANDINS/base.cjs";

/** words of a command line, quotes removed; the part after a pipe is dropped */
export function words(line: string): string[] {
  const out: string[] = [];
  const re = /"([^"]*)"|'([^']*)'|(\S+)/g;
  for (let m; (m = re.exec(line.split("|")[0])); ) {
    const w = m[1] ?? m[2] ?? m[3];
    if (/^\d?>/.test(w) && m[3]) continue; // redirections
    out.push(w);
  }
  return out;
}
class Failed extends Error {
  constructor(readonly status: number) { super(`Command failed with ${status}`); }
}
export function shell(CLI: any, plan: any, store: Record<string, string>) {
  const at = (cwd: any, p: string) => path.posix.resolve("/work", String(cwd ?? "."), p);
  const record = (what: string, w: string[], cwd: any) => { CLI.ran.push({ what, w, cwd: path.posix.resolve("/work", String(cwd ?? ".")) }); };
  let scripts = 0;
  const deployed = (chain: string) => {
    const p = CLI.world.pending;
    if (p && p.chain === chain) { CLI.world.chains[chain] = p.state; delete CLI.world.pending; }
  };
  function run(w: string[], cwd: any): { code: number; out: string } {
    const ok = (out = "") => ({ code: 0, out });
    const fail = (code: number, out = "") => ({ code, out });
    switch (w[0]) {
      case "git": {
        if (w[1] === "tag") {
          const pat = new RegExp("^" + w[w.length - 1].replace(/[.+?^${}()|[\]\\]/g, "\\$&").replace(/\*/g, ".*") + "$");
          return ok(plan.tags.filter((t: string) => pat.test(t)).map((t: string) => t + "\n").join(""));
        }
        if (w[1] === "worktree" && w[2] === "add") {
          record("checkout", [w[3], w[4]], cwd);
          if (!plan.tags.includes(w[4])) return fail(128);
          for (const [f, d] of Object.entries(plan.tree)) store[at(cwd, `${w[3]}/${f}`)] = d as string;
          return ok();
        }
        if (w[1] === "-C" && w[3] === "reset") {
          record("checkout", [w[2], w[w.length - 1]], cwd);
          if (!plan.tags.includes(w[w.length - 1])) return fail(128);
          for (const [f, d] of Object.entries(plan.tree)) store[at(cwd, `${w[2]}/${f}`)] = d as string;
          return ok();
        }
        break;
      }
      case "ln": return ok();
      case "forge":
        if (w[1] === "install") return ok();
        if (w[1] === "script") {
          const o = plan.forge[Math.min(scripts++, plan.forge.length - 1)];
          const file = w.find((x, i) => i > 1 && /\.sol$/.test(x));
          record("forge", w.slice(2), cwd);
          CLI.ran[CLI.ran.length - 1].script = store[at(cwd, file ?? "?")];
          store[at(cwd, "last-run.stdout")] = o.out;
          if (o.deploys) deployed(plan.chain);
          if (o.version) CLI.world.chains[plan.chain].version = o.version;
          return o.fails ? fail(1) : ok(o.out);
        }
        break;
      case "which":
        return plan.anchor === null ? fail(1) : ok("/bin/anchor\n");
      case "anchor":
        if (w[1] === "--version") return plan.anchor === null ? fail(127) : ok(`anchor-cli ${plan.anchor}\n`);
        if (w[1] === "build") {
          record("build", w.slice(2), cwd);
          if (plan.built === null) return fail(2);
          store[at(cwd, "target/deploy/example_native_token_transfers.so")] = plan.built;
          return ok();
        }
        break;
      case "solana-keygen":
        record("keygen", w.slice(1), cwd);
        store[at(cwd, w[w.findIndex((x) => x === "-o" || x === "--outfile") + 1])] = "[]";
        return ok();
      case "solana":
        if (w[1] === "program" && w[2] === "deploy") {
          record("deploy", w.slice(3), cwd);
          if (plan.deploy) return fail(plan.deploy);
          if (plan.version) CLI.world.chains[plan.chain].version = plan.version;
          return ok("Program Id: x\n");
        }
        break;
    }
    throw new Missing(`the program ${w.slice(0, 3).join(" ")}`);
  }
  const sync = (line: string, o: any = {}) => {
    const r = run(words(line), o?.cwd);
    // what follows a pipe decides the status of a pipeline
    if (r.code !== 0 && !/\|\s*tee /.test(line)) throw new Failed(r.code);
    return o?.encoding ? r.out : Buffer.from(r.out);
  };
  const file = (f: string, a: any, o: any = {}) => {
    const r = run([f, ...(Array.isArray(a) ? a : [])], o?.cwd);
    if (r.code !== 0) throw new Failed(r.code);
    return o?.encoding ? r.out : Buffer.from(r.out);
  };
  const spawn = (c: any, o: any) => {
    const r = run(c.cmd ?? c, (o ?? c).cwd);
    return { exited: Promise.resolve(r.code), exitCode: r.code, stdout: r.out, stderr: "", kill() {}, pid: 1 };
  };
  const spawnSync = (c: any, a: any, o: any) => {
    const r = run([c, ...(Array.isArray(a) ? a : [])], (Array.isArray(a) ? o : a)?.cwd);
    return { status: r.code, stdout: Buffer.from(r.out), stderr: Buffer.alloc(0) };
  };
  return { execSync: sync, execFileSync: file, spawnSync, bun: { spawn, env: {} } };
}
