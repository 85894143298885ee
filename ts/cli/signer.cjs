"use strict";
// keys stay outside: the chain's owner signs
module.exports = require("../standins/base.cjs").open({
  getSigner: async (ctx, type, source) => require("./world.cjs").signer(ctx.chain, type, source),
  forgeSignerArgs: (s) => `--signer-${s.type} ${s.source}`,
}, "getSigner");
