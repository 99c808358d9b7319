'use strict';
// A download replaces the file at its destination as a whole or not at all.
const fs = require('fs');
const path = require('path');
const { Readable } = require('stream');
const { Violation, load, vscode, fsys, scratch, shards } = require('./lib.js');

function compositions(n) {
    if (n === 0) return [[]];
    const res = [];
    for (let k = 1; k <= n; k++) for (const rest of compositions(n - k)) res.push([k, ...rest]);
    return res;
}

exports.cases = (thorough) => {
    const res = [];
    const size = thorough ? 5 : 4;
    for (const existing of [false, true]) {
        for (const mode of [0o755, undefined, 0o600]) {
            for (const chunks of [...compositions(size), []]) {
                if (mode !== 0o755 && chunks.length > 2) continue;
                res.push({ existing, mode, downloads: [{ chunks }], faults: thorough ? 3 : 2 });
            }
        }
        for (const length of ['missing', 'nonsense']) {
            res.push({ existing, mode: 0o755, length, downloads: [{ chunks: [2, 2] }], faults: thorough ? 2 : 1 });
        }
        // again after the first attempt, whatever became of it
        for (const chunks of [[2], [1, 1]]) {
            res.push({ existing, mode: 0o755, downloads: [{ chunks }, { chunks: [1, 2] }], sequential: true, faults: thorough ? 2 : 1 });
        }
        // two at the same time
        if (existing || thorough) res.unshift(...shards({ existing, mode: 0o755, downloads: [{ chunks: [2] }, { chunks: [3] }], faults: 0 }, 32, 7));
        if (thorough && existing) {
            res.unshift(...shards({ existing, mode: 0o755, downloads: [{ chunks: [2] }, { chunks: [3] }], faults: 1 }, 64, 7));
        }
    }
    // bodies and chunks of every magnitude; what is in between waits at most once
    const K = 1024;
    const even = (n, k) => Array(n).fill(k);
    for (const chunks of [[1], even(16, 1), even(40, 1), [16 * K - 1], [16 * K], [16 * K + 1], [16 * K, 1], even(4, 16 * K), even(9, 5000), [64 * K, 64 * K, 1], [1, 64 * K], [200 * K],
        even(12, 16 * K + 1), [3 * K * K], ...(thorough ? [even(100, 700), even(33, 64 * K), [20 * K * K]] : [])]) {
        for (const existing of [false, true]) res.push({ existing, mode: 0o755, downloads: [{ chunks }], faults: 1, switches: thorough && chunks.length < 20 ? 2 : 1 });
    }
    // any bytes
    const bytes = [[0], [0xff], [0xc3, 0xa9], [0xc3], [0xe2, 0x82, 0xac, 0xe2], [0xef, 0xbb, 0xbf, 0x61], [13, 10, 13, 10], [10], [13], [0x1f, 0x8b, 8, 0, 0], [0x7f, 0x45, 0x4c, 0x46, 0, 0], [0x23, 0x21, 0x2f],
        [0x1a, 4, 26], [0x50, 0x4b, 3, 4], [0xf0, 0x9f, 0x98, 0x80, 0xed, 0xa0, 0x80], [32, 9, 32], [0x80, 0x81], [0xff, 0xfe, 0x61, 0]];
    for (const b of bytes) for (const chunks of [[b.length], ...(b.length > 1 ? [[1, b.length - 1], [b.length - 1, 1], even(b.length, 1)] : [])]) {
        res.push({ existing: true, mode: 0o755, downloads: [{ chunks, bytes: b }], faults: 0, switches: thorough ? 2 : 1 });
    }
    res.push({ existing: true, mode: 0o755, downloads: [{ chunks: even(256, 3), every: true }], faults: 0, switches: 0 });
    res.push({ existing: true, mode: 0o755, downloads: [{ chunks: [768], every: true }], faults: 1, switches: 1 });
    // names of any kind
    const names = ['dove', '.dove', 'dove.exe', 'dove-linux-1.2.2.bin', 'dove.tar.gz', 'do ve', 'dové', 'd%6fve', 'd.', 'dove~', '-dove', 'a#b?c', 'd\\e', 'x'.repeat(200)];
    for (const name of names) res.push({ existing: name.length % 2 === 0, mode: 0o755, downloads: [{ chunks: [2, 1] }], names: [name], faults: 1, switches: 2 });
    // several at the same time, to neighbouring names
    const neighbours = [['dove', 'dove.exe'], ['dove.bin', 'dove.exe'], ['dove-linux', 'dove-linux-2'], ['dove', 'Dove'], ['a', 'b', 'c'], ['dove.1', 'dove.2', 'dove', 'dove.1.2']];
    for (const names of neighbours) {
        for (const existing of [false, true]) {
            res.push(...shards({ existing, mode: 0o755, downloads: names.map((_, k) => ({ chunks: k % 2 ? [3] : [1, 1] })), names, faults: 1, switches: thorough ? 2 : 1 }, 4, 9));
        }
    }
    // again and again: every attempt but the last fails, in one way or in turn
    for (const times of thorough ? [3, 6, 20] : [3, 9]) {
        for (const ways of [['refused'], ['not found'], ['server error'], ['interrupted'], ['open EACCES'], ['write ENOSPC'], ['close EIO', 'write disk full midway'], ['rename EPERM', 'rename EXDEV'], ['refused', 'interrupted', 'rename EPERM', 'write ENOSPC', 'server error']]) {
            for (const existing of [false, true]) {
                res.push({ existing, mode: 0o755, downloads: even(times, 0).map((_, k) => ({ chunks: k % 3 ? [2, 1] : [4], fails: k + 1 < times ? ways[k % ways.length] : undefined })), sequential: true, faults: times - 1, switches: 1, ways: true });
            }
        }
    }
    return res;
};

exports.notes = (thorough) => ({ bounds: `bodies of up to ${thorough ? 5 : 4} bytes in every chunking, up to ${thorough ? 3 : 2} faults per run, every order of completions; bodies of up to ${thorough ? 20 : 3} MiB and ${thorough ? 256 : 256} chunks, all byte values, several downloads to neighbouring names and long series of attempts with up to ${thorough ? 2 : 1} context switches` });
exports.assumptions = [
    'an interrupted transfer shows as an error of the response body (what node-fetch does)',
    'a rename within a directory is atomic; writes, copies and truncations are not',
];

exports.runCase = async (c, world) => {
    const dir = scratch();
    world.cleanup = () => fs.rmSync(dir, { recursive: true, force: true });
    const dests = c.downloads.map((_, k) => path.join(dir, (c.names && c.names[k]) || 'dove-linux.bin'));
    const dest = dests[0];
    const old = Buffer.from('OLD-CONTENTS');
    if (c.existing) for (const d of dests) fs.writeFileSync(d, old, { mode: 0o644 });
    const ends = c.downloads.map((d, k) => {
        const n = d.chunks.reduce((a, b) => a + b, 0);
        if (d.bytes) return Buffer.from(d.bytes);
        if (d.every) return Buffer.from(Array(n).fill(0).map((_, i) => (i * 7 + (i >> 8)) & 255));
        if (n > 8) {
            const b = Buffer.alloc(n);
            for (let i = 0; i < n; i++) b[i] = (i * 31 + (i >> 8) * 17 + (i >> 16) + k) & 255;
            return b;
        }
        return Buffer.from('abcdefgh'.slice(0, n).split('').map((ch) => (k ? ch.toUpperCase() : ch)).join(''));
    });
    const state = c.downloads.map(() => 'not started');

    const fetch = (url) => {
        const k = +/(\d+)$/.exec(String(url))[1];
        const body = ends[k];
        const headers = { get: (name) => (/^content-length$/i.test(name) ? (c.length === 'missing' ? null : c.length === 'nonsense' ? 'many' : String(body.length)) : null) };
        return world.wait('request ' + k, [
            { name: 'answered', run: () => {
                const stream = new Readable({ read() {} });
                // node-fetch listens itself, an abandoned body is not an unhandled error
                stream.on('error', () => {});
                let sent = 0;
                const send = (i) => {
                    const last = i === c.downloads[k].chunks.length;
                    world.gate('body ' + k, [
                        { name: last ? 'end' : 'chunk', run: () => {
                            if (last) return stream.push(null);
                            const n = c.downloads[k].chunks[i];
                            stream.push(body.subarray(sent, sent + n));
                            sent += n;
                            send(i + 1);
                        } },
                        { name: 'interrupted', fault: true, run: () => {
                            if (!stream.destroyed) stream.destroy(Object.assign(new Error('aborted'), { code: 'ECONNRESET', type: 'system' }));
                        } },
                    ]);
                };
                send(0);
                return { ok: true, status: 200, statusText: 'OK', headers, body: stream, url: String(url) };
            } },
            { name: 'refused', fault: true, run: () => { throw Object.assign(new Error('connect ECONNREFUSED'), { code: 'ECONNREFUSED' }); } },
            { name: 'not found', fault: true, run: () => ({ ok: false, status: 404, statusText: 'Not Found', headers, body: Readable.from(['no']), text: () => world.wait('text', [{ name: 'text', run: () => 'not here' }, { name: 'text fails', fault: true, run: () => { throw new Error('text'); } }]) }) },
            { name: 'server error', fault: true, run: () => ({ ok: false, status: 500, statusText: 'Error', headers, body: Readable.from(['no']), text: async () => 'oops' }) },
        ]);
    };

    const ext = load(world, {
        vscode: vscode({}),
        fs: fsys(world, { faulty: true }),
        'node-fetch': { __esModule: true, default: fetch },
        'vscode-languageclient/node': {},
    });

    world.maxSteps = 2500;
    const read = (d) => (fs.existsSync(d) ? fs.readFileSync(d) : null);
    const show = (b) => (b === null ? 'nothing' : b.length > 60 ? `${b.length} bytes (${JSON.stringify(b.toString('latin1', 0, 20))}...)` : JSON.stringify(b.toString('latin1')));
    const replaced = {};
    world.observe = () => {
        for (const d of new Set(dests)) {
            const now = read(d);
            if (!replaced[d] && (c.existing ? now && now.equals(old) : now === null)) continue;
            if (now !== null && ends.some((e, k) => dests[k] === d && state[k] !== 'not started' && e.equals(now))) replaced[d] = true;
            else throw new Violation('torn', `the file at the destination ${path.basename(d)} holds ${show(now)}, neither the old nor a complete new file`);
        }
    };
    world.digest = () => state.join() + dests.map((d) => (fs.existsSync(d) ? fs.readFileSync(d, 'latin1') : '-')).join() + fs.readdirSync(dir).length;
    const results = [];
    const start = (k) => {
        state[k] = 'running';
        const before = world.faults;
        return ext.net.download({ url: 'https://example.org/asset/' + k, dest: dests[k], progressTitle: 'x', mode: c.mode }).then(
            () => {
                state[k] = 'done';
                results.push({ k, ok: true });
                const now = read(dests[k]);
                const okNow = c.sequential ? [ends[k]] : ends.filter((_, j) => dests[j] === dests[k]);
                if (now === null || !okNow.some((e) => e.equals(now))) {
                    throw new Violation('wrong-contents', `download ${k} reports success but the file holds ${show(now)} instead of ${show(ends[k])}`);
                }
                const mode = fs.statSync(dests[k]).mode & 0o777;
                const want = c.mode & ~process.umask();
                if (c.mode !== undefined && mode !== want) {
                    throw new Violation('wrong-mode', `the file has mode ${mode.toString(8)} instead of ${want.toString(8)}`);
                }
            },
            (e) => {
                state[k] = 'failed';
                results.push({ k, ok: false, e });
                if (!(e instanceof Error)) throw new Violation('failure-unreported', 'the download failed with ' + String(e));
                if (before === world.faults && c.length !== 'nonsense' && c.downloads.length === 1) {
                    throw new Violation('failed-without-fault', 'a download failed though nothing went wrong: ' + e.stack);
                }
            }
        );
    };
    let bad = null;
    const guard = (p) => p.catch((e) => { bad = bad || e; });
    if (c.sequential) {
        for (let k = 0; k < c.downloads.length; k++) {
            if (c.ways) world.force = c.downloads[k].fails === undefined ? null : c.downloads[k].fails;
            else if (k > 0) world.faults = 0;
            const p = guard(start(k));
            await world.loop();
            if (bad) throw bad;
            if (state[k] === 'running') throw new Violation('hang', `download ${k} neither succeeds nor fails`);
            if (c.ways && state[k] !== (c.downloads[k].fails === undefined ? 'done' : 'failed') && world.force === null) throw new Violation('failure-unreported', `attempt ${k} should have failed with ${c.downloads[k].fails}, it is ${state[k]}`);
            if ((c.ways ? c.downloads[k].fails === undefined : k > 0) && state[k] === 'failed') throw new Violation('failed-without-fault', `a later attempt fails though nothing goes wrong: ${results.find((r) => r.k === k).e}`);
            await p;
        }
    } else {
        c.downloads.forEach((_, k) => guard(start(k)));
        await world.loop();
    }
    if (bad) throw bad;
    state.forEach((s, k) => {
        if (s === 'running') throw new Violation('hang', `download ${k} neither succeeds nor fails`);
    });
    // a fault that hits one download is reported by it
    const now = read(dest);
    if (!c.names && results.some((r) => r.ok) && (now === null || !results.some((r) => r.ok && ends[r.k].equals(now)) && !results.some((r) => !r.ok && now && ends[r.k].equals(now)))) {
        throw new Violation('lost', 'a download reported success but its file is not there');
    }
    const faulted = /refused|not found|server error|interrupted/.test(world.trace.join());
    if (c.downloads.length === 1 && faulted && results[0].ok) {
        throw new Violation('failure-unreported', 'the transfer failed but the download reports success');
    }
};
