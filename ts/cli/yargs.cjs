"use strict";
// the part of yargs the tool uses: nested commands, positionals, options with alias, default, type and choices
/* global CLI, process */
const { open, Missing } = require("../standins/base.cjs");
const camel = (s) => s.replace(/-([a-z])/g, (_, c) => c.toUpperCase());
class Refused extends Error {}
function level() {
  const l = { commands: [], options: {}, positionals: {} };
  const b = new Proxy(l, {
    get: (_, k) => {
      if (k === "then" || typeof k === "symbol") return undefined;
      if (k === "$") return l;
      if (k === "command") return (name, desc, builder, handler) => {
        const o = typeof name === "object" && !Array.isArray(name) ? name : { command: name, builder, handler };
        l.commands.push(o);
        return b;
      };
      if (k === "option" || k === "options") return (n, o) => { if (typeof n === "object") Object.assign(l.options, n); else l.options[n] = o ?? {}; return b; };
      if (k === "positional") return (n, o) => { l.positionals[n] = o ?? {}; return b; };
      if (k === "parse" || k === "parseAsync" || k === "argv") {
        const run = () => (CLI.done = Promise.resolve().then(() => execute(l, CLI.args)));
        return k === "argv" ? run() : run;
      }
      if (["wrap", "scriptName", "version", "help", "strict", "strictCommands", "strictOptions", "demandCommand", "example", "usage", "epilogue", "recommendCommands", "showHelpOnFail", "alias", "group", "fail"].includes(k)) return () => b;
      return () => { throw new Missing(`stand-in for yargs lacks ${String(k)}`); };
    },
  });
  return b;
}
function value(o, name, v) {
  if (o.choices && !o.choices.includes(v)) throw new Refused(`Invalid value for ${name}`);
  return o.type === "number" ? Number(v) : v;
}
function execute(l, args) {
  const c = l.commands.find((c) => c.command.split(" ")[0] === args[0]);
  if (!c) throw new Refused(`Unknown command ${args[0]}`);
  const b = level();
  if (typeof c.builder === "function") c.builder(b); else if (c.builder) Object.assign(b.$.options, c.builder);
  const sub = b.$;
  if (sub.commands.length) { Object.assign(sub.options, { ...l.options, ...sub.options }); return execute(sub, args.slice(1)); }
  const opts = { ...l.options, ...sub.options };
  const byName = {};
  for (const [n, o] of Object.entries(opts)) for (const a of [n, camel(n), ...[o.alias ?? []].flat()]) byName[a] = [n, o];
  const argv = { _: [args[0]] };
  const set = (n, v) => { argv[n] = v; argv[camel(n)] = v; for (const a of [opts[n]?.alias ?? []].flat()) argv[a] = v; };
  for (const [n, o] of [...Object.entries(opts), ...Object.entries(sub.positionals)]) if (o.default !== undefined) set(n, o.default);
  const free = [];
  const rest = args.slice(1);
  while (rest.length) {
    const a = rest.shift();
    const m = /^--?([^=]+)(?:=(.*))?$/.exec(a);
    if (!m || !a.startsWith("-")) { free.push(a); continue; }
    let [, n, v] = m;
    if (byName[n] === undefined && n.startsWith("no-") && byName[n.slice(3)]) { set(byName[n.slice(3)][0], false); continue; }
    if (byName[n] === undefined) throw new Refused(`Unknown argument: ${n}`);
    const [full, o] = byName[n];
    if (o.type === "boolean") set(full, v === undefined ? true : v === "true");
    else set(full, value(o, full, v ?? rest.shift()));
  }
  for (const w of c.command.split(" ").slice(1)) {
    const n = w.replace(/[<>[\]]/g, "");
    const v = free.shift();
    if (v === undefined) { if (w.startsWith("<")) throw new Refused("Not enough non-option arguments"); continue; }
    set(n, value({ ...opts[n], ...sub.positionals[n] }, n, v));
  }
  for (const [n, o] of Object.entries(opts)) if (o.demandOption && argv[n] === undefined) throw new Refused(`Missing required argument: ${n}`);
  if (!c.handler) throw new Missing("command without handler");
  return c.handler(argv);
}
const yargs = () => level();
module.exports = open(Object.assign(yargs, { default: yargs, hideBin: (a) => a.slice(2), Refused }), "yargs");
