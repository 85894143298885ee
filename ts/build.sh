#!/usr/bin/env bash
# bundles the repository's TypeScript clients with the stand-ins for packages that are not installed here
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="${NTT_REPO:-/repo}"
out="$1"
s="$here/standins"
exec /opt/veriftools/node/node_modules/.bin/esbuild "$here/server.ts" --bundle --platform=node --format=cjs --log-level=error --outfile="$out" \
  --alias:REPO="$repo" --alias:STANDINS="$s" \
  --alias:@wormhole-foundation/sdk-definitions-ntt="$repo/sdk/definitions/src/index.ts" \
  --alias:@wormhole-foundation/sdk-base="$s/sdk-base.cjs" \
  --alias:@wormhole-foundation/sdk-definitions="$s/sdk-definitions.cjs" \
  --alias:@wormhole-foundation/sdk-solana-core="$s/sdk-solana-core.cjs" \
  --alias:@wormhole-foundation/sdk-solana="$s/sdk-solana.cjs" \
  --alias:@wormhole-foundation/sdk-evm-core="$s/sdk-evm-core.cjs" \
  --alias:@wormhole-foundation/sdk-evm="$s/sdk-evm.cjs" \
  --alias:ethers="$s/ethers.cjs" \
  --alias:@wormhole-foundation/sdk-connect="$s/sdk-connect.cjs" \
  --alias:@coral-xyz/anchor="$s/anchor.cjs" \
  --alias:@solana/web3.js="$s/web3.cjs" \
  --alias:@solana/spl-token="$s/spl-token.cjs" \
  --alias:bn.js="$s/bn.cjs" --alias:chalk="$s/chalk.cjs"
