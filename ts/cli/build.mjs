// bundles the repository's command line tool, for evaluation once per command by the server
import { createRequire } from "module";
import path from "path";
import { fileURLToPath } from "url";
const require = createRequire("/opt/veriftools/node/node_modules/");
const esbuild = require("esbuild");
const here = path.dirname(fileURLToPath(import.meta.url));
const standins = path.join(here, "../standins");
const repo = process.env.NTT_REPO ?? "/repo";
const known = {
  "@wormhole-foundation/sdk-base": "../standins/sdk-base.cjs", "@wormhole-foundation/sdk-definitions": "../standins/sdk-definitions.cjs",
  "@wormhole-foundation/sdk-solana": "../standins/sdk-solana.cjs", "@wormhole-foundation/sdk-evm": "../standins/sdk-evm.cjs",
  "@wormhole-foundation/sdk": "sdk.cjs", "@wormhole-foundation/sdk-connect": "sdk.cjs",
  "@wormhole-foundation/sdk-solana-ntt": "solana-ntt.cjs", "@wormhole-foundation/sdk/platforms/evm": "platform.cjs", "@wormhole-foundation/sdk/platforms/solana": "platform.cjs",
  "@solana/web3.js": "../standins/web3.cjs", "@solana/spl-token": "../standins/spl-token.cjs", ethers: "ethers.cjs", chalk: "../standins/chalk.cjs",
  "@wormhole-foundation/sdk-solana-core": "../standins/sdk-solana-core.cjs", "@coral-xyz/anchor": "../standins/anchor.cjs", "bn.js": "../standins/bn.cjs",
  yargs: "yargs.cjs", "yargs/helpers": "yargs.cjs", readline: "readline.cjs",
};
const builtin = new Set(require("module").builtinModules);
const mine = {
  name: "standins",
  setup(b) {
    b.onResolve({ filter: /.*/ }, (a) => {
      if (a.kind === "entry-point") return;
      if (a.path === "REPO-CLI") return { path: path.join(repo, "cli/src/index.ts") };
      if (a.path === "REPO-CLI-CONFIG") return { path: path.join(repo, "cli/src/configuration.ts") };
      if (a.path === "REPO-SOLANA-LIB") return { path: path.join(repo, "solana/ts/lib/index.ts") };
      if (a.path === "@wormhole-foundation/sdk-definitions-ntt" && a.importer.includes("/solana/ts/")) return { path: path.join(repo, "sdk/definitions/src/index.ts") };
      const name = a.path.replace(/^node:/, "");
      if (known[name]) return { path: path.join(here, known[name]) };
      if (a.with?.type === "file" || /\.sol$/.test(a.path)) return { path: a.path, namespace: "file-path" };
      // keys and signing stay outside: the signer is the test's
      if (/(^|\/)getSigner(\.ts|\.js)?$/.test(a.path)) return { path: path.join(here, "signer.cjs") };
      if (builtin.has(name)) return { path: name, external: true };
      if (!a.path.startsWith(".") && !path.isAbsolute(a.path)) return { path: path.join(here, "nothing.cjs") };
    });
    b.onLoad({ filter: /.*/, namespace: "file-path" }, (a) => ({ contents: `module.exports = ${JSON.stringify(a.path)};`, loader: "js" }));
  },
};
await esbuild.build({
  entryPoints: [path.join(here, "entry.ts")], bundle: true, platform: "node", format: "cjs", logLevel: "error", outfile: process.argv[2], plugins: [mine],
}).catch(() => process.exit(1));
void standins;
