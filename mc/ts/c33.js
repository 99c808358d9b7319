'use strict';
// What the build tool writes is collected exactly, however it arrives.
const fs = require('fs');
const path = require('path');
const util = require('util');
const { Violation, load, vscode, Child, Uri, World, scratch } = require('./lib.js');

const META = { long: '{"p":"é😀ж","q":[1]}', tiny: '"é"', number: '7', spaced: ' {"p":"ш"}\n' };

exports.cases = (thorough) => {
    const res = [];
    const call = ['metadata', 'metadataWithErrorMessage'];
    for (const how of call) {
        // every chunking of one stream
        const one = { long: thorough ? 17 : 11, tiny: 9, number: 9, spaced: 12 };
        for (const name of Object.keys(one)) {
            // the beginning in every chunking, the rest at once
            res.push({ how, out: META[name], err: '', pieces: one[name], order: 'fixed' });
        }
        for (const out of ['', '\n', '{"p":', 'no json', 'é']) res.push({ how, out, err: 'ошибка', pieces: 4, order: 'fixed', code: 1 });
        // every order of both streams, the exit and the ends
        res.push({ how, out: META.tiny, err: 'ü', pieces: 3, order: 'any' });
        res.push({ how, out: META.tiny, err: 'ü!', pieces: thorough ? 3 : 2, order: 'any' });
        res.push({ how, out: '', err: 'öé', pieces: 4, order: 'any', code: 1 });
        if (thorough) res.push({ how, out: '["é"]', err: 'ü', pieces: 5, order: 'any' });
        for (const startFails of ['ENOENT', 'EACCES', 'throws', 'late']) res.push({ how, out: '', err: '', startFails, order: 'any' });
    }
    for (const startFails of ['ENOENT', 'EACCES', 'throws', 'late', undefined]) res.push({ how: 'init', out: 'x', err: 'ü', pieces: 2, startFails, order: 'any' });
    // large outputs: pieces of a fixed size that cut characters, errors of any size in between
    for (const how of call) {
        for (const size of [100, 4096, 8192, 16384, 65536, 65537, ...(thorough ? [1 << 20, 4 << 20] : [300000])]) {
            for (const fill of ['x', 'é', 'жы', '€', '😀', '\\n', '\\u00e9', ' ', 'ab,é']) {
                for (const step of [1, 7, 1000, 4095, 4096, 8191, 16383, 65535, 65536]) {
                    if (size / step > (thorough ? 2000 : 300) || step > 2 * size) continue;
                    const both = (step === 1 || step === 4096) && (thorough || (size < 100000 && ['é', '😀'].includes(fill)));
                    for (const errSize of both ? [0, 1, size] : [0, 1]) {
                        res.push({ how, big: { size, fill }, errBig: errSize, step, pieces: 0, order: errSize > 1 ? 'any' : 'fixed', switches: 1 });
                    }
                }
            }
        }
        // what comes around and inside the values
        for (const out of ['\u{feff}{"a":1}', '\r\n{"a":1}\r\n', '\t[]', '{"a":"\u2028\u2029"}', '{"a":"\u0085"}', '"\\ud83d\\ude00"', '"\\ud83d"', '{"__proto__":{"a":1}}', '{"a":1,"a":2}', '12345678901234567890', '[[[[[[[[]]]]]]]]', 'true',
            '{"a":"\u0000"}', '"\u0000"', '{} {}', '[1,]', "{'a':1}", 'NaN', '\u00a0{}', '\u{1f600}', '"\u{10ffff}"', '"\ufffd"', '"a\u0301"', '"\u0001"']) {
            for (const err of ['', 'e', '{"b":2}', '\u{1f600}\r\n\u0000'.repeat(3)]) res.push({ how, out, err, pieces: 3, order: 'fixed' });
        }
        // warnings in between, in many pieces
        for (const n of thorough ? [2, 5, 40] : [2, 9]) res.push({ how, out: '{"p":"' + 'жy'.repeat(n) + '"}', err: 'w\u00e9\n'.repeat(n), step: 1, pieces: 0, order: 'any', switches: thorough ? 3 : 2 });
    }
    return res;
};
const expand = (c) => {
    if (!c.big) return c;
    const unit = JSON.parse(`"${c.big.fill}"`);
    const text = JSON.stringify({ p: c.big.fill === '\\u00e9' ? 0 : unit.repeat(c.big.size), q: [1] });
    return { ...c, out: c.big.fill === '\\u00e9' ? `"${c.big.fill.repeat(c.big.size)}"` : text, err: 'ы'.repeat(c.errBig) };
};
exports.notes = () => ({ bounds: 'outputs of up to 24 bytes with 2, 3 and 4 byte characters; every chunking of their first bytes, every order of chunks, stream ends and process exit; failures to start' });
exports.assumptions = ['the close event comes after the end of both streams, a failed start shows as an error event followed by close (checked against real processes)'];

// Whether what the caller got is right.
function judge(c, result, messages) {
    let want;
    try {
        want = c.startFails ? undefined : JSON.parse(c.out.trim());
    } catch (e) {}
    const got = util.inspect(result);
    // init() has no result
    if (c.how === 'init') return;
    if (want === undefined) {
        if (!result.ok) return;
        const v = c.how === 'metadata' ? result.value && result.value[0] : result.value;
        if (v) throw new Violation('failure-unreported', `the tool failed, the caller got ${got}`);
        const text = c.how === 'metadata' ? (result.value && result.value[1]) || '' : messages.join('\n');
        if (c.how === 'metadataWithErrorMessage' && messages.length === 0) throw new Violation('failure-unreported', 'the tool failed but nothing was shown to the user');
        if (!c.startFails && !text.includes(c.err)) throw new Violation('wrong-errors', `the errors ${JSON.stringify(c.err)} arrived as ${JSON.stringify(text)}`);
        return;
    }
    if (!result.ok) throw new Violation('wrong-output', `the tool wrote ${JSON.stringify(c.out)} but the caller got ${got}`);
    const v = c.how === 'metadata' ? result.value[0] : result.value;
    if (!util.isDeepStrictEqual(v, want)) throw new Violation('wrong-output', `the tool wrote ${JSON.stringify(c.out)} but the caller got ${got}`);
    if (c.how === 'metadata' && result.value[1] !== c.err) throw new Violation('wrong-errors', `the tool wrote ${JSON.stringify(c.err)} to stderr but the caller got ${got}`);
}

exports.runCase = async (c, world) => {
    c = expand(c);
    world.maxSteps = 10000;
    const messages = [];
    let spawned = 0;
    const streams = {};
    const feed = (child, name, text) => {
        const bytes = Buffer.from(text);
        streams[name] = { sent: 0, ended: false };
        const st = streams[name];
        return () => {
            if (st.ended) return [];
            const rest = bytes.length - st.sent;
            if (rest === 0) return [{ name: name + ' end', run: () => { st.ended = true; child[name].push(null); } }];
            if (c.step) {
                const n = Math.min(c.step, rest);
                return [{ name: `${name} ${n} bytes`, run: () => { child[name].push(bytes.subarray(st.sent, st.sent + n)); st.sent += n; } }];
            }
            const acts = [];
            const most = st.sent < c.pieces ? Math.min(rest, c.pieces) : 0;
            for (let n = 1; n <= most; n++) if (n !== rest) acts.push({ name: `${name} ${n} bytes`, run: () => { child[name].push(bytes.subarray(st.sent, st.sent + n)); st.sent += n; } });
            acts.unshift({ name: `${name} the last ${rest} bytes`, run: () => { child[name].push(bytes.subarray(st.sent)); st.sent = bytes.length; } });
            return acts;
        };
    };
    let events = () => [];
    const spawn = (cmd, args, opts) => {
        spawned++;
        if (cmd !== '/tools/dove' || !util.isDeepStrictEqual(args, [c.how === 'init' ? 'init' : 'metadata']) || !opts || opts.cwd !== '/ws/project') {
            throw new Violation('wrong-command', util.inspect([cmd, args, opts]));
        }
        if (c.startFails === 'throws') throw Object.assign(new Error('spawn EINVAL'), { code: 'EINVAL' });
        const child = new Child();
        const out = feed(child, 'stdout', c.startFails ? '' : c.out);
        const err = feed(child, 'stderr', c.startFails ? '' : c.err);
        let exited = false;
        let failed = !c.startFails;
        let closed = false;
        const code = c.startFails ? -2 : c.code || 0;
        // one source at a time, with a bounded number of changes from one that has more
        let last = 0;
        let left = c.switches;
        const bounded = () => {
            const from = [out, err, () => (exited ? [] : [{ name: 'exit', run: () => { exited = true; child.exitCode = code; child.emit('exit', code, null); } }])];
            let acts = [];
            for (let i = 0; i < 3; i++) {
                const k = (last + i) % 3;
                for (const a of from[k]()) {
                    const free = acts.length === 0;
                    if (!free && left === 0) continue;
                    acts.push({ name: a.name, run: () => { last = k; if (!free) left--; a.run(); } });
                }
                if (acts.length && (left === 0 || c.order !== 'any')) break;
            }
            if (acts.length === 0) acts.push({ name: 'close', run: () => { closed = true; child.emit('close', code, null); } });
            return acts;
        };
        events = () => {
            if (closed) return [];
            if (c.switches !== undefined) return bounded();
            if (!failed && c.startFails !== 'late') return [{ name: 'error ' + c.startFails, run: () => { failed = true; child.pid = undefined; child.emit('error', Object.assign(new Error('spawn ' + c.startFails), { code: c.startFails, syscall: 'spawn /tools/dove' })); } }];
            const acts = [...out()];
            if (c.order === 'any' || acts.length === 0) acts.push(...err());
            if (acts.length === 0 || c.order === 'any') {
                if (!exited && !c.startFails) acts.push({ name: 'exit', run: () => { exited = true; child.exitCode = code; child.emit('exit', code, null); } });
                else if (acts.length === 0) {
                    // the error of a failed start may also come when the streams are gone
                    if (!failed) acts.push({ name: 'error late', run: () => { failed = true; child.emit('error', Object.assign(new Error('spawn ENOENT'), { code: 'ENOENT' })); } });
                    else acts.push({ name: 'close', run: () => { closed = true; child.emit('close', code, null); } });
                }
            }
            return acts;
        };
        return child;
    };
    const ext = load(world, {
        vscode: vscode({ window: { showErrorMessage: async (m) => { messages.push(m); } } }),
        'node-fetch': { __esModule: true, default: () => {} },
        'vscode-languageclient/node': {},
        child_process: { ...require('child_process'), spawn },
    });
    let result = null;
    const dove = new ext.dove.Dove('/tools/dove');
    const folder = { uri: Uri.file('/ws/project'), name: 'project', index: 0 };
    dove[c.how](folder).then((value) => { result = { ok: true, value }; }, (error) => { result = { ok: false, error }; });
    world.digest = () => JSON.stringify([streams, !!result]);
    await world.loop(() => events());
    if (result && result.error instanceof Violation) throw result.error;
    if (!result) throw new Violation('hang', 'the caller never gets an answer');
    if (spawned !== 1) throw new Violation('wrong-command', `the tool was started ${spawned} times`);
    judge(c, result, messages);
};

// The same with real processes.
exports.extra = async (thorough, report, total) => {
    const dir = scratch();
    let n = 0;
    try {
        const cases = [];
        for (const text of Object.values(META)) {
            const bytes = Buffer.from(text);
            for (let cut = 1; cut < bytes.length; cut += thorough ? 1 : 3) cases.push({ out: text, err: 'ü', cut });
        }
        cases.push({ out: '', err: 'ошибка', code: 1, cut: 1 }, { out: '', err: '', startFails: 'missing' }, { out: '', err: '', startFails: 'not executable' });
        // more than fits into a pipe, of both; ended by a signal
        for (const size of thorough ? [70000, 1000000, 16000000] : [70000, 1000000]) {
            const out = JSON.stringify({ p: 'x'.repeat(size) });
            const fill = (n, to) => `head -c ${n} /dev/zero | tr '\\0' x ${to}\n`;
            const print = `printf '{"p":"'\n${fill(size, '')}printf '"}'\n`;
            const warn = fill(size, '>&2');
            cases.push({ out, err: 'x'.repeat(size), script: warn + print }, { out, err: 'x'.repeat(size), script: print + warn }, { out, err: 'x'.repeat(size), script: `(${warn}) &\n${print}wait\n` },
                { out, err: '', script: `${print}kill -9 $$\n` }, { out: '{"p":"' + 'x'.repeat(size), err: 'x'.repeat(size), script: `printf '{"p":"'\n${fill(size, '')}${warn}kill -9 $$\n` },
                { out, err: '', script: `${print}exit 3\n` }, { out, err: '', script: `exec 2>&-\n${print}` });
        }
        cases.push({ out: '', err: '', script: 'kill -9 $$\n' }, { out: '', err: 'e', script: 'exec >&-\nsleep 0.1\nprintf e >&2\nexit 1\n' });
        await Promise.all(cases.map(async (c, i) => {
            c.how = 'metadata';
            const tool = path.join(dir, 'dove' + i);
            const oct = (b) => [...b].map((x) => '\\' + x.toString(8).padStart(3, '0')).join('');
            const bytes = Buffer.from(c.out);
            if (c.startFails !== 'missing') {
                fs.writeFileSync(tool, c.script ? '#!/bin/sh\n' + c.script : `#!/bin/sh\nprintf '${oct(bytes.subarray(0, c.cut))}'\nprintf '${oct(Buffer.from(c.err).subarray(0, 1))}' >&2\nsleep 0.15\nprintf '${oct(bytes.subarray(c.cut))}'\nprintf '${oct(Buffer.from(c.err).subarray(1))}' >&2\nexit ${c.code || 0}\n`, { mode: c.startFails ? 0o644 : 0o755 });
            }
            const world = new World(() => 0, 0);
            const ext = load(world, { vscode: vscode({}), 'node-fetch': {}, 'vscode-languageclient/node': {} });
            let stray = null;
            const watch = (e) => { stray = e; };
            if (c.startFails) process.on('uncaughtException', watch);
            const result = await Promise.race([
                new ext.dove.Dove(tool).metadata({ uri: Uri.file(dir) }).then((value) => ({ ok: true, value }), (error) => ({ ok: false, error })),
                new Promise((r) => setTimeout(() => r(null), 30000)),
            ]);
            if (c.startFails) process.removeListener('uncaughtException', watch);
            n++;
            try {
                if (stray) throw new Violation('stray-error', 'an error nobody handles: ' + stray.stack);
                if (!result) throw new Violation('hang', 'the caller never gets an answer');
                judge(c, result, []);
            } catch (e) {
                if (!(e instanceof Violation)) throw e;
                const brief = { ...c, out: c.out.slice(0, 60), err: c.err.slice(0, 60) };
                report({ key: 'real process ' + JSON.stringify(brief) + ' / ' + e.key, detail: e.detail.slice(0, 3000), case: brief, choices: [] });
            }
        }));
    } finally {
        fs.rmSync(dir, { recursive: true, force: true });
    }
    total.notes = { real_processes: n };
    total.executions += n;
};
