//! The command line tool's deployments and upgrades: what it hands to git, forge, anchor and solana (recorded, never run),
//! and what it writes down afterwards.
use crate::cli::{native, parse, remote, solana, strings, text, tool, world, world_json, World, B32, FILE};
use crate::engine::{Fail, Obs, Src};
use crate::sdk::bad;
use serde_json::{json, Map, Value};
use solana_sdk::pubkey::Pubkey;

const VERSIONS: [&str; 9] = ["1.0.0", "1.1.0", "1.9.0", "1.10.0", "2.0.0", "2.0.9", "2.0.10", "3.0.0", "10.0.0"];
const ANCHOR: &str = "solana/Anchor.toml";
const LIB: &str = "solana/programs/example-native-token-transfers/src/lib.rs";
const SCRIPTS: [&str; 2] = ["evm/script/DeployWormholeNtt.s.sol", "evm/script/helpers/DeployWormholeNttBase.sol"];

fn base58(b: &[u8]) -> String {
    let mut digits: Vec<u8> = vec![];
    for &x in b {
        let mut c = x as u32;
        for d in digits.iter_mut() {
            c += (*d as u32) << 8;
            *d = (c % 58) as u8;
            c /= 58;
        }
        while c > 0 {
            digits.push((c % 58) as u8);
            c /= 58;
        }
    }
    let zeros = b.iter().take_while(|x| **x == 0).count();
    let alphabet = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    std::iter::repeat('1').take(zeros).chain(digits.iter().rev().map(|d| alphabet[*d as usize] as char)).collect()
}
fn key_file(secret: u8, k: &B32) -> Value {
    json!(json!([[secret; 32], *k].concat()).to_string())
}
fn tree(id: &str) -> Map<String, Value> {
    let mut m = Map::new();
    m.insert("evm/foundry.toml".into(), json!("[profile]"));
    for f in SCRIPTS {
        m.insert(f.into(), json!(format!("original {f}")));
    }
    m.insert(ANCHOR.into(), json!(format!("[programs.localnet]\nexample_native_token_transfers = \"{id}\"\n")));
    m.insert(LIB.into(), json!(format!("declare_id!(\"{id}\");\n")));
    m
}
fn special(c: &str) -> &'static str {
    match c {
        "Avalanche" => "0x1a19d8a194630642f750376Ae72b4eDF5aDFd25F",
        "Bsc" => "0x8C56eE9cd232d23541a697C0eBd3cA597DE3c88D",
        _ => "0x63BE47835c7D66c4aA5B2C688Dc6ed9771c94C74",
    }
}
fn numbers(v: &str) -> Vec<u32> {
    v.split('.').map(|x| x.parse().unwrap()).collect()
}
fn has(w: &[String], part: &[&str]) -> bool {
    w.windows(part.len()).any(|x| x == part)
}

/// what must come of a command
struct Plan {
    exit: u64,
    checkout: Option<String>,
    forge: Vec<(Vec<String>, bool)>,
    build: bool,
    deploy: bool,
    init: bool,
    file: Value,
}

pub fn deploying(s: &mut Src, obs: &mut Obs) -> Result<(), Fail> {
    s.begin();
    let network = *s.pick(&["Mainnet", "Testnet", "Mainnet"]);
    let mut w: World = world(s);
    let add = s.chance(3, 5);
    let free: Vec<&str> = ["Solana", "Bsc", "Avalanche", "Sepolia", "Polygon"].into_iter().filter(|c| !w.contains_key(*c)).collect();
    let some = s.chance(1, 2) && (free.contains(&"Solana") == add);
    let c: String = if some {
        "Solana".into()
    } else if add {
        s.pick(&free).to_string()
    } else {
        s.pick(&w.keys().cloned().collect::<Vec<_>>()).clone()
    };
    let sol = solana(&c);
    // the chain to be added comes from the same generator
    let fresh = {
        let mut d = w.values().next().unwrap().clone();
        for k in [&mut d.owner, &mut d.manager, &mut d.token, &mut d.wormhole] {
            *k = native(s, &c);
        }
        d.pauser = None;
        d.xpauser = None;
        d.peers.clear();
        d.xpeers.clear();
        d.decimals = *s.pick(&[9u8, 18, 6, 0, 1]);
        d
    };
    let names: Vec<String> = w.keys().cloned().collect();
    let mut file = json!({"network": network, "chains": {}});
    for n in &names {
        file["chains"][n] = remote(&w, n, &names);
    }
    let locking = file["chains"].as_object().unwrap().values().any(|x| x["mode"] == "locking");
    let mode: &'static str = if !add {
        w[&c].mode
    } else if locking {
        "burning"
    } else {
        *s.pick(&["locking", "burning"])
    };
    let d = if add { crate::cli::Dep { mode, ..fresh } } else { w[&c].clone() };
    let token = text(&c, &d.token);
    // versions
    let platform = if sol { "solana" } else { "evm" };
    let have: Vec<&str> = VERSIONS.into_iter().filter(|_| s.chance(2, 3)).collect();
    let mut tags: Vec<String> = have.iter().map(|v| format!("v{v}+{platform}")).collect();
    let rival = if sol { "evm" } else { "solana" };
    tags.push(format!("v99.0.0+{rival}"));
    tags.extend(VERSIONS.into_iter().filter(|_| s.chance(1, 3)).map(|v| format!("v{v}+{rival}")));
    tags.push("v98.0.0".into());
    tags.sort();
    let mut args: Vec<String> = vec![if add { "add-chain" } else { "upgrade" }.into(), c.clone()];
    let which = s.weighted(&[12, 10, 8, 1, 1]);
    let ver = if s.chance(1, 8) || have.is_empty() { "9.9.9" } else { *s.pick(&have) };
    let latest = have.iter().max_by_key(|v| numbers(v)).copied();
    if which == 0 || which == 3 {
        args.extend(["--ver".into(), ver.into()]);
    }
    if which == 1 || which == 3 {
        args.push("--latest".into());
    }
    if which == 2 {
        args.push("--local".into());
    }
    let version: Option<&str> = match which {
        0 => Some(ver),
        1 => latest,
        _ => None,
    };
    let yes = s.bool();
    if yes {
        args.push("--yes".into());
    }
    let verify = s.chance(1, 2);
    if !verify {
        args.push("--skip-verify".into());
    }
    let api = s.chance(3, 4);
    if add {
        if !locking || s.bool() {
            args.extend(["--mode".into(), mode.into()]);
        }
        args.extend(["--token".into(), token.clone()]);
    }
    let answers: Vec<bool> = (0..4).map(|_| s.chance(3, 4)).collect();
    let mut asked = 0;
    let mut ask = || {
        asked += 1;
        answers[asked - 1]
    };
    // the outside world
    let rpc = format!("https://rpc.{network}.{c}");
    let core = if sol { text(&c, &native(s, &c)) } else { format!("0x{:040x}", 0xc0e) };
    let relayer = format!("0x{:040x}", 0x7e1);
    let fee = s.chance(1, 3).then(|| s.below(100_000));
    let program: B32 = d.manager;
    let program_text = Pubkey::new_from_array(program).to_string();
    let other = native(s, "Solana");
    let key_given = s.chance(3, 4);
    let written: B32 = if !key_given || s.bool() { program } else { other };
    let written_text = Pubkey::new_from_array(written).to_string();
    let payer: B32 = native(s, "Solana");
    let mut files = Map::new();
    for (f, v) in tree(&written_text) {
        files.insert(format!("/work/{f}"), v);
    }
    for f in SCRIPTS {
        files.insert(format!("/{f}"), json!(format!("of the tool: {f}")));
    }
    files.insert(FILE.into(), json!(file.to_string()));
    if api {
        files.insert("/home/user/.ntt-cli/config.json".into(), json!(json!({"chains": {c.clone(): {"scan_api_key": "KEY"}}}).to_string()));
    }
    let stale = s.chance(1, 3);
    if let (Some(v), true) = (version, stale) {
        for (f, x) in tree(&Pubkey::new_from_array([9; 32]).to_string()) {
            files.insert(format!("/work/.deployments/{}-{v}/{f}", if sol { "Solana" } else { "Evm" }), x);
        }
    }
    let payer_there = s.chance(15, 16);
    let key_there = s.chance(15, 16);
    let own_key = s.chance(3, 4);
    let authority = Pubkey::find_program_address(&[b"token_authority"], &Pubkey::new_from_array(program)).0;
    let mint_there = s.chance(19, 20);
    let mint_ok = s.chance(7, 8);
    let mut mint = vec![0u8; 82];
    if mint_ok || s.bool() {
        mint[0] = 1;
        mint[4..36].copy_from_slice(if mint_ok { authority.as_ref() } else { &other });
    }
    mint[44] = d.decimals;
    mint[45] = 1;
    let binary_given = s.chance(1, 2);
    let core_key: Vec<u8> = if sol { core.parse::<Pubkey>().unwrap().to_bytes().to_vec() } else { vec![0; 32] };
    let flaw = s.weighted(&[16, 1, 1, 1]);
    let so = [&[7u8; 13][..], if flaw == 1 { &other } else { &core_key }, &[1, 2], if flaw == 2 { &other } else { &program }, &[0; 9]].concat();
    let so = format!("hex:{}", crate::client::hex(&so));
    let anchor = match s.weighted(&[12, 1, 1]) {
        0 => Some("0.29.0"),
        1 => Some("0.30.1"),
        _ => None,
    };
    let buffer = s.chance(1, 4);
    let deploy_fails = if s.chance(1, 6) { s.range(1, 9) } else { 0 };
    let init_fails = s.chance(1, 10);
    if sol {
        if payer_there {
            files.insert("/work/payer.json".into(), key_file(3, &payer));
        }
        args.extend(["--payer".into(), "payer.json".into()]);
        if key_given {
            args.extend(["--program-key".into(), "program.json".into()]);
            if key_there {
                files.insert("/work/program.json".into(), key_file(4, &program));
            }
        } else if key_there {
            files.insert(format!("/work/{written_text}.json"), key_file(4, if own_key { &written } else { &[8; 32] }));
        }
        if binary_given {
            args.extend(["--binary".into(), "ntt.so".into()]);
            if flaw != 3 {
                files.insert("/work/ntt.so".into(), json!(so));
            }
        }
        if let (Some(f), true) = (fee, add) {
            args.extend(["--solana-priority-fee".into(), f.to_string()]);
        }
        if buffer {
            files.insert("/work/buffer.json".into(), json!("[]"));
        }
    }
    // what forge does
    let fine = format!("Script ran successfully.\n\n== Logs ==\n  NttManager: {}\n  Wormhole transceiver: {}\n", text(&c, &d.manager), text(&c, &d.wormhole));
    let simulated = format!("Error: Simulated execution failed{}\n", if s.bool() { ": NotActivated" } else { "" });
    let new_version = s.pick(&VERSIONS).to_string();
    let story = s.weighted(&[5, 2, 1, 1, 1]);
    let good = |fails: bool| json!({"out": fine, "deploys": true, "fails": fails, "version": if add { Value::Null } else { json!(new_version) }});
    let forge = match story {
        0 => vec![good(false)],
        1 => vec![json!({"out": simulated}), good(false)],
        2 => vec![json!({"out": simulated}), json!({"out": "Error: reverted\n", "fails": true})],
        3 => vec![good(true)],
        _ => vec![json!({"out": *s.pick(&["", "Error: insufficient funds\n"]), "fails": true})],
    };
    s.end();

    // ---- what must happen ----
    let mut p = Plan { exit: 0, checkout: None, forge: vec![], build: false, deploy: false, init: false, file: file.clone() };
    let selected = which <= 2 && !(which == 1 && latest.is_none());
    let mut new_id: Option<String> = None;
    let current = file["chains"][&c]["version"].as_str().unwrap_or_default().to_string();
    'run: {
        macro_rules! stop {
            ($e:expr, $c:expr) => {{
                p.exit = $e;
                obs.class($c);
                break 'run;
            }};
        }
        if !selected {
            stop!(1, "no or ambiguous version refused");
        }
        if which == 2 && !yes && !ask() {
            stop!(0, "local deployment declined");
        }
        if !add {
            if version == Some(current.as_str()) && which != 2 {
                stop!(0, "already at this version");
            }
            if !yes && !ask() {
                stop!(0, "upgrade declined");
            }
        }
        if let Some(v) = version {
            if !have.contains(&v) {
                stop!(1, "unknown version refused");
            }
            p.checkout = Some(format!("v{v}+{platform}"));
        }
        if !sol {
            if verify && !api {
                stop!(1, "verification key missing");
            }
            let call: Vec<String> = if add {
                [core.as_str(), &token, &relayer, special(&c), &d.decimals.to_string(), if mode == "locking" { "0" } else { "1" }].iter().map(|x| x.to_string()).collect()
            } else {
                vec![text(&c, &d.manager)]
            };
            p.forge.push((call.clone(), false));
            if !add {
                if let Some(v) = forge[0]["version"].as_str() {
                    w.get_mut(&c).unwrap().version = v.to_string();
                }
                p.file["chains"][&c]["version"] = json!(w[&c].version);
                obs.class("EVM chain upgraded");
                break 'run;
            }
            if story == 1 || story == 2 {
                if !ask() {
                    stop!(0, "deployment without simulation declined");
                }
                p.forge.push((call, true));
            }
            if story == 2 || story == 4 {
                stop!(1, "failed EVM deployment not recorded");
            }
            w.insert(c.clone(), d.clone());
            p.file["chains"][&c] = remote(&w, &c, &[c.clone()]);
            obs.class("EVM chain added");
            break 'run;
        }
        if !payer_there {
            stop!(1, "payer missing");
        }
        if !add && version.is_none() {
            stop!(1, "local Solana upgrade refused");
        }
        if !key_there || (!key_given && !own_key) {
            stop!(1, "program key missing or wrong");
        }
        if program != written {
            if version.is_none() && !ask() {
                stop!(0, "new program id declined");
            }
            new_id = Some(program_text.clone());
        }
        if !mint_there || (mode == "burning" && !mint_ok) {
            stop!(1, "mint missing or not controlled by the program");
        }
        if !binary_given {
            if anchor != Some("0.29.0") {
                stop!(1, "wrong anchor refused");
            }
            p.build = true;
            if flaw == 3 {
                stop!(2, "failed build not deployed");
            }
        }
        if flaw != 0 {
            stop!(1, "wrong binary not deployed");
        }
        if buffer && !ask() {
            stop!(0, "continued deployment declined");
        }
        p.deploy = true;
        if deploy_fails != 0 {
            stop!(deploy_fails, "failed Solana deployment not recorded");
        }
        if !add {
            w.get_mut(&c).unwrap().version = new_version.clone();
            p.file["chains"][&c]["version"] = json!(new_version);
            obs.class("Solana chain upgraded");
            break 'run;
        }
        p.init = true;
        if init_fails {
            stop!(1, "failed initialization not recorded");
        }
        w.insert(c.clone(), d.clone());
        p.file["chains"][&c] = remote(&w, &c, &[c.clone()]);
        obs.class("Solana chain added");
    }

    // ---- run it ----
    let mut before: World = w.clone();
    if add {
        before.remove(&c);
    } else {
        before.get_mut(&c).unwrap().version = current.clone();
    }
    let mut wj = world_json(&before, network);
    let mut alone = World::new();
    alone.insert(c.clone(), d.clone());
    if add {
        wj["pending"] = json!({"chain": c, "state": world_json(&alone, network)["chains"][&c], "early": sol, "fails": init_fails});
    }
    wj["configs"] = json!({c.clone(): {"rpc": rpc, "contracts": {"coreBridge": core, "relayer": relayer}}});
    wj["tokens"] = json!({format!("{rpc} {token}"): d.decimals});
    wj["mints"] = if mint_there && sol { json!({token.clone(): {"program": if d.decimals == 9 { "TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA" } else { "TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb" }, "data": crate::client::hex(&mint)}}) } else { json!({}) };
    let yn: Vec<&str> = answers.iter().map(|a| if *a { "y" } else { "n" }).collect();
    let sh = json!({"chain": c, "tags": tags, "tree": tree(&written_text), "forge": forge, "anchor": anchor, "built": if flaw == 3 { Value::Null } else { json!(so) }, "deploy": deploy_fails, "version": if add { Value::Null } else { json!(new_version) }});
    let q = json!({"world": wj, "files": files, "runs": [{"args": args, "answers": yn, "shell": sh}]});
    let Some(r) = tool(&q, obs) else { return Ok(()) };
    let g = match r {
        Ok(r) => r[0].clone(),
        Err(e) => return Err(bad("C36", "cli", format!("the tool fails: {e}"))),
    };
    obs.ops += 1;
    let err = |site: &str, m: String| Err(bad("C36", site, format!("{args:?} on {network} (answers {answers:?}) {m}; ran {}, exit {} {} said {:?} {:?}", g["ran"], g["exit"], g["thrown"], g["out"], g["err"])));
    let ran: Vec<(String, Vec<String>, String, Value)> = g["ran"].as_array().unwrap().iter().map(|x| (x["what"].as_str().unwrap().into(), strings(&x["w"]), x["cwd"].as_str().unwrap().into(), x["script"].clone())).collect();
    let of = |k: &str| ran.iter().filter(|x| x.0 == k).collect::<Vec<_>>();
    let got = parse(&g["files"][FILE]);
    if got != p.file {
        return err("file", format!("deployment file is {got}, must be {}", p.file));
    }
    if g["exit"].as_u64() != Some(p.exit) {
        return err("exit", format!("must exit with {}", p.exit));
    }
    // the sources that are built
    let out = of("checkout");
    let mut root = "/work".to_string();
    match &p.checkout {
        None if !out.is_empty() => return err("checkout", "checks out although it should not".into()),
        Some(t) => {
            if out.len() != 1 || out[0].1[1] != *t {
                return err("checkout", format!("must check out {t}"));
            }
            root = format!("/work/{}", out[0].1[0]);
        }
        _ => {}
    }
    let f = of("forge");
    if f.len() != p.forge.len() {
        return err("forge", format!("must run forge {} times", p.forge.len()));
    }
    for (x, (call, again)) in f.iter().zip(&p.forge) {
        let flags: Vec<&str> = call.iter().map(|x| x.as_str()).collect();
        if !has(&x.1, &flags) {
            return err("forge-arguments", format!("must call with {flags:?}"));
        }
        let sig = if add { "run(address,address,address,address,uint8,uint8)" } else { "upgrade(address)" };
        if !has(&x.1, &["--sig", sig]) || !has(&x.1, &["--rpc-url", &rpc]) || !has(&x.1, &["--signer-privateKey", "0xkey"]) || !x.1.iter().any(|y| y == "--broadcast") {
            return err("forge-options", format!("must call {sig} on {rpc}, signed and broadcast"));
        }
        if x.1.iter().any(|y| y == "--verify") != verify || has(&x.1, &["--etherscan-api-key", "KEY"]) != verify {
            return err("forge-verify", format!("verification must be {verify}"));
        }
        if x.1.iter().any(|y| y == "--skip-simulation") != *again {
            return err("forge-simulation", format!("skipping the simulation must be {again}"));
        }
        if x.2 != format!("{root}/evm") {
            return err("forge-tree", format!("must run in {root}/evm"));
        }
        if x.3 != json!(format!("of the tool: {}", SCRIPTS[0])) {
            return err("forge-script", format!("runs the script {}", x.3));
        }
    }
    if !p.forge.is_empty() {
        for t in SCRIPTS {
            if g["files"][format!("{root}/{t}")] != json!(format!("original {t}")) || g["files"].get(format!("{root}/{t}.old")).is_some() {
                return err("script-restored", format!("leaves {t} changed"));
            }
        }
    }
    let b = of("build");
    if b.len() != p.build as usize {
        return err("build", format!("must build {}", p.build));
    }
    for x in b {
        let feature = if network == "Mainnet" { "mainnet" } else { "solana-devnet" };
        if !has(&x.1, &["-p", "example_native_token_transfers"]) || !x.1.iter().any(|y| y == "--no-default-features") || !has(&x.1, &["--features", feature]) || x.2 != format!("{root}/solana") {
            return err("build-arguments", format!("must build for {feature} in {root}/solana"));
        }
    }
    let dp = of("deploy");
    if dp.len() != p.deploy as usize {
        return err("deploy", format!("must deploy: {}", p.deploy));
    }
    for x in dp {
        let key = if key_given { "program.json".to_string() } else { format!("{written_text}.json") };
        let bin = if binary_given { "ntt.so".to_string() } else { format!("{}/solana/target/deploy/example_native_token_transfers.so", root.strip_prefix("/work").map(|r| if r.is_empty() { ".".into() } else { r[1..].to_string() }).unwrap()) };
        let bin_ok = x.1.iter().any(|y| *y == bin || y.trim_start_matches("./") == bin.trim_start_matches("./"));
        if !has(&x.1, &["--program-id", &key]) || !has(&x.1, &["--keypair", "payer.json"]) || !(has(&x.1, &["-u", &rpc]) || has(&x.1, &["--url", &rpc])) || !bin_ok {
            return err("deploy-arguments", format!("must deploy {bin} as {key} to {rpc} paid by payer.json"));
        }
        if add {
            let price = fee.unwrap_or(50_000).to_string();
            if !has(&x.1, &["--with-compute-unit-price", &price]) {
                return err("deploy-price", format!("must pay the priority fee {price}"));
            }
        }
        if g["files"].get("/work/buffer.json").is_some() != (deploy_fails != 0) {
            return err("deploy-buffer", "the buffer key must be kept exactly when the deployment failed".into());
        }
    }
    let ops = g["ops"].as_array().unwrap();
    let init = json!([c, "initialize", program_text, token, mode, "100000000", version, ""]);
    let want: Vec<Value> = if p.init && !init_fails { vec![init] } else { vec![] };
    if *ops != want {
        return err("initialize", format!("sends {ops:?}, must send {want:?}"));
    }
    // the program id in the sources
    if sol && (p.deploy || p.build || new_id.is_some()) {
        let id = new_id.unwrap_or(written_text);
        for f in [ANCHOR, LIB] {
            if g["files"][format!("{root}/{f}")] != tree(&id)[f] {
                return err("program-id", format!("{f} is {}, must name {id}", g["files"][format!("{root}/{f}")]));
            }
        }
    } else if sol && version.is_none() {
        for f in [ANCHOR, LIB] {
            if g["files"][format!("/work/{f}")] != tree(&written_text)[f] {
                return err("program-id", format!("{f} is changed to {}", g["files"][format!("/work/{f}")]));
            }
        }
    }
    let after = crate::cli::normal(world_json(&w, network));
    let mut now = crate::cli::normal(g["world"].clone());
    for k in ["configs", "tokens", "mints", "pending"] {
        now.as_object_mut().unwrap().remove(k);
    }
    if p.exit == 0 && now != after {
        return err("chains", format!("the chains are {now}, must be {after}"));
    }
    Ok(())
}

/// addresses the tool prints
pub fn addresses(s: &mut Src, obs: &mut Obs) -> Result<(), Fail> {
    let n = 1 + s.idx(5);
    let mut runs = vec![];
    let mut want = vec![];
    let mut files = Map::new();
    for i in 0..n {
        s.begin();
        let (a, b) = (native(s, "Solana"), native(s, "Solana"));
        let (ka, kb) = (Pubkey::new_from_array(a), Pubkey::new_from_array(b));
        match s.below(4) {
            0 => {
                let f = format!("k{i}.json");
                files.insert(format!("/work/{f}"), json!(json!([a, b].concat()).to_string()));
                runs.push(json!({"args": ["solana", "key-base58", f]}));
                want.push(base58(&[a, b].concat()));
            }
            1 => {
                runs.push(json!({"args": ["solana", "token-authority", ka.to_string()]}));
                want.push(Pubkey::find_program_address(&[b"token_authority"], &ka).0.to_string());
            }
            _ => {
                let new = s.bool();
                let p: Pubkey = if new { "TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb" } else { "TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA" }.parse().unwrap();
                let ata: Pubkey = "ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL".parse().unwrap();
                runs.push(json!({"args": ["solana", "ata", ka.to_string(), kb.to_string(), if new { "token22" } else { "legacy" }]}));
                want.push(Pubkey::find_program_address(&[kb.as_ref(), p.as_ref(), ka.as_ref()], &ata).0.to_string());
            }
        }
        s.end();
    }
    let Some(r) = tool(&json!({"world": {"network": "Mainnet", "chains": {}}, "files": files, "runs": runs}), obs) else { return Ok(()) };
    let r = match r {
        Ok(r) => r,
        Err(e) => return Err(bad("C36", "cli", format!("the tool fails: {e}"))),
    };
    for (i, g) in r.as_array().unwrap().iter().enumerate() {
        obs.ops += 1;
        obs.class("address printed");
        if strings(&g["out"]) != [want[i].clone()] || g["exit"] != json!(0) {
            return Err(bad("C36", "address", format!("{} prints {} {}, must print {}", runs[i], g["out"], g["thrown"], want[i])));
        }
    }
    Ok(())
}
