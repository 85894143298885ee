"use strict";
// @solana/spl-token, as far as the client library uses it
const { open, concat } = require("./base.cjs");
const { PublicKey, TransactionInstruction, SystemProgram } = require("./web3.cjs");
const TOKEN_PROGRAM_ID = new PublicKey("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA");
const TOKEN_2022_PROGRAM_ID = new PublicKey("TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb");
const ASSOCIATED_TOKEN_PROGRAM_ID = new PublicKey("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL");
const meta = (pubkey, isSigner, isWritable) => ({ pubkey, isSigner, isWritable });

function getAssociatedTokenAddressSync(mint, owner, allowOwnerOffCurve = false, programId = TOKEN_PROGRAM_ID, associated = ASSOCIATED_TOKEN_PROGRAM_ID) {
  if (!allowOwnerOffCurve && !PublicKey.isOnCurve(owner)) throw new Error("TokenOwnerOffCurveError");
  return PublicKey.findProgramAddressSync([owner.b, programId.b, mint.b], associated)[0];
}
const getAssociatedTokenAddress = async (...a) => getAssociatedTokenAddressSync(...a);
async function getMint(connection, address, _commitment, programId = TOKEN_PROGRAM_ID) {
  const info = await connection.getAccountInfo(address);
  if (!info) throw new Error("TokenAccountNotFoundError");
  if (!info.owner.equals(programId)) throw new Error("TokenInvalidAccountOwnerError");
  const d = info.data;
  return { address, decimals: d[44], supply: d.readBigUInt64LE(36), tlvData: d.length > 166 ? d.subarray(166) : Buffer.alloc(0) };
}
function unpackMint(address, info, programId = TOKEN_PROGRAM_ID) {
  if (!info) throw new Error("TokenAccountNotFoundError");
  if (!info.owner.equals(programId)) throw new Error("TokenInvalidAccountOwnerError");
  const d = info.data;
  return { address, mintAuthority: d.readUInt32LE(0) ? new PublicKey(d.subarray(4, 36)) : null, decimals: d[44], supply: d.readBigUInt64LE(36), isInitialized: d[45] !== 0 };
}
function ext(tlv, type) {
  for (let o = 0; o + 4 <= tlv.length; ) {
    const t = tlv.readUInt16LE(o), n = tlv.readUInt16LE(o + 2);
    if (t === type) return tlv.subarray(o + 4, o + 4 + n);
    o += 4 + n;
  }
  return null;
}
function getTransferHook(mint) {
  const d = ext(mint.tlvData, 14);
  return d ? { authority: new PublicKey(d.subarray(0, 32)), programId: new PublicKey(d.subarray(32, 64)) } : null;
}
const getExtraAccountMetaAddress = (mint, programId) => PublicKey.findProgramAddressSync([Buffer.from("extra-account-metas"), mint.b], programId)[0];
function getExtraAccountMetas(account) {
  const d = account.data;
  const n = d.readUInt32LE(12);
  return Array.from({ length: n }, (_, i) => {
    const e = d.subarray(16 + 35 * i, 51 + 35 * i);
    return { discriminator: e[0], addressConfig: e.subarray(1, 33), isSigner: !!e[33], isWritable: !!e[34] };
  });
}
function createExecuteInstruction(programId, source, mint, destination, owner, validateState, amount) {
  const data = Buffer.alloc(16);
  Buffer.from([105, 37, 101, 197, 75, 251, 102, 26]).copy(data);
  data.writeBigUInt64LE(BigInt(amount), 8);
  return new TransactionInstruction({ keys: [source, mint, destination, owner, validateState].map((k) => meta(k, false, false)), programId, data });
}
async function seeds(config, metas, data, connection) {
  const out = [];
  for (let o = 0; o < 32 && config[o] !== 0; ) {
    switch (config[o]) {
      case 1: out.push(config.subarray(o + 2, o + 2 + config[o + 1])); o += 2 + config[o + 1]; break;
      case 2: out.push(data.subarray(config[o + 1], config[o + 1] + config[o + 2])); o += 3; break;
      case 3: out.push(metas[config[o + 1]].pubkey.b); o += 2; break;
      case 4: {
        const a = await connection.getAccountInfo(metas[config[o + 1]].pubkey);
        out.push(a.data.subarray(config[o + 2], config[o + 2] + config[o + 3]));
        o += 4;
        break;
      }
      default: throw new Error("TokenTransferHookInvalidSeed");
    }
  }
  return out;
}
async function resolveExtraAccountMeta(connection, e, previous, data, programId) {
  if (e.discriminator === 0) return meta(new PublicKey(e.addressConfig), e.isSigner, e.isWritable);
  const p = e.discriminator === 1 ? programId : previous[e.discriminator - 128].pubkey;
  const s = await seeds(e.addressConfig, previous, data, connection);
  return meta(PublicKey.findProgramAddressSync(s, p)[0], e.isSigner, e.isWritable);
}
function createApproveInstruction(account, delegate, owner, amount, multiSigners = [], programId = TOKEN_PROGRAM_ID) {
  const data = Buffer.alloc(9);
  data[0] = 4;
  data.writeBigUInt64LE(BigInt(amount), 1);
  return new TransactionInstruction({ programId, data, keys: [meta(account, false, true), meta(delegate, false, false), meta(owner, !multiSigners.length, false)] });
}
function createAssociatedTokenAccountInstruction(payer, ata, owner, mint, programId = TOKEN_PROGRAM_ID, associated = ASSOCIATED_TOKEN_PROGRAM_ID) {
  return new TransactionInstruction({
    programId: associated,
    data: Buffer.alloc(0),
    keys: [meta(payer, true, true), meta(ata, false, true), meta(owner, false, false), meta(mint, false, false), meta(SystemProgram.programId, false, false), meta(programId, false, false)],
  });
}
void concat;
module.exports = open({
  TOKEN_PROGRAM_ID, TOKEN_2022_PROGRAM_ID, ASSOCIATED_TOKEN_PROGRAM_ID, getAssociatedTokenAddressSync, getAssociatedTokenAddress, getMint, unpackMint, getTransferHook,
  getExtraAccountMetaAddress, getExtraAccountMetas, createExecuteInstruction, resolveExtraAccountMeta, createApproveInstruction, createAssociatedTokenAccountInstruction,
}, "@solana/spl-token");
