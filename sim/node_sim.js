// Runs one script of calls against witness calculators in a single process. Everything that happens is decided by the
// script: which calculator, which call, with which input, how many microtasks pass between the starts of calls that
// overlap. usage: node node_sim.js <witness_calculator.js> <module.wasm> <script.json>; prints one line of JSON.
"use strict";
const fs = require("fs");
const [, , jsfile, wasmfile, scriptfile] = process.argv;
const builder = require(jsfile);
const script = JSON.parse(fs.readFileSync(scriptfile, "utf8"));
const code = fs.readFileSync(wasmfile);
const lines = [];
console.log = function () { lines.push(Array.prototype.map.call(arguments, String).join(" ")); };

function show(x) {
    if (Array.isArray(x)) return x.map(String);
    return Buffer.from(x.buffer, x.byteOffset, x.byteLength).toString("hex");
}
const METHODS = { w: "calculateWitness", b: "calculateBinWitness", t: "calculateWTNSBin" };
const inputs = script.inputs.map((s) => JSON.parse(s));

// the forms of one input: the object every call shares, one object whose contents the caller replaces between calls,
// numbers as BigInt
function big(x) {
    if (Array.isArray(x)) return x.map(big);
    if (x !== null && typeof x === "object") return Object.fromEntries(Object.keys(x).map((k) => [k, big(x[k])]));
    return BigInt(x);
}
const scratch = {};
function form(i, how) {
    if (!how) return inputs[i];
    let v = JSON.parse(script.inputs[i]);
    if (how & 2) { try { v = big(v); } catch (e) { } }
    if (!(how & 1) || v === null || typeof v !== "object" || Array.isArray(v)) return v;
    for (const k of Object.keys(scratch)) delete scratch[k];
    // values of the same name go into the object that is already there, as a caller who counts up would do
    for (const k of Object.keys(v)) {
        const old = kept[k];
        if (Array.isArray(old) && Array.isArray(v[k])) {
            old.length = 0;
            old.push(...v[k]);
            scratch[k] = old;
        } else scratch[k] = kept[k] = v[k];
    }
    return scratch;
}
const kept = {};

async function call(calc, method, input, sanity, keep) {
    try {
        const x = await calc[METHODS[method]](input, sanity);
        const r = { ok: show(x) };
        if (keep) keep.push([x, r]);
        return r;
    } catch (e) {
        return { err: String(e && e.message !== undefined ? e.message : e) };
    }
}

(async () => {
    const out = { fresh: {}, results: [], events: [], initial: 0, peak: 0 };
    const pages = (c) => c.instance.exports.memory.buffer.byteLength / 65536;
    // what a fresh calculator gives
    for (const key of script.fresh) {
        const [m, i, s] = key.split("/");
        const calc = await builder(code);
        lines.length = 0;
        out.initial = pages(calc);
        const r = await call(calc, m, inputs[+i], +s);
        r.log = lines.slice();
        out.fresh[key] = r;
        out.peak = Math.max(out.peak, pages(calc));
    }
    lines.length = 0;
    const calcs = [];
    for (let k = 0; k < script.calcs; k++) calcs.push(await builder(code));
    const other = script.other ? await builder(fs.readFileSync(script.other)) : null;
    out.other = [];
    const pending = new Map(), given = [];
    for (const op of script.ops) {
        if (op[0] === "start") {
            const id = op[1];
            if (op[6] & 1) await Promise.all(pending.values());
            out.events.push("s" + id);
            pending.set(id, call(calcs[op[2]], op[3], form(op[4], op[6]), op[5], given).then((r) => {
                out.events.push("e" + id);
                out.results[id] = r;
            }));
        } else if (op[0] === "other") {  // a calculator of another circuit, over another field, in the same process
            const id = "o" + out.other.length, at = out.other.length;
            out.other.push(null);
            pending.set(id, call(other, op[1], { x: op[2], y: [op[3], op[4]] }, 0, given).then((r) => { out.other[at] = r; }));
        } else if (op[0] === "tick") {
            for (let k = 0; k < op[1]; k++) await null;
        } else if (op[0] === "await") {
            await pending.get(op[1]);
            pending.delete(op[1]);
        } else if (op[0] === "all") {
            await Promise.all(pending.values());
            pending.clear();
        } else if (op[0] === "init") {  // a computation that is begun and abandoned
            await Promise.all(pending.values());
            const kept = lines.length;
            try { calcs[op[1]].instance.exports.init(0); } catch (e) { }
            lines.length = kept;
        } else if (op[0] === "repeat") {  // the same failing call many times; results are not kept
            await Promise.all(pending.values());
            const kept = lines.length;
            for (let k = 0; k < op[4]; k++) {
                await call(calcs[op[1]], op[2], inputs[op[3]], 0);
                lines.length = kept;
            }
        }
    }
    await Promise.all(pending.values());
    out.log = lines;
    // what was given to earlier callers is theirs
    out.changed = given.filter(([x, r]) => JSON.stringify(show(x)) !== JSON.stringify(r.ok)).length;
    process.stdout.write(JSON.stringify(out) + "\n");
})().catch((e) => {
    process.stderr.write(String(e && e.stack || e) + "\n");
    process.exit(3);
});
