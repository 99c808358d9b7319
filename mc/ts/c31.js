'use strict';
// The search for a tool binary, against an independently written description of what it should do.
const fs = require('fs');
const path = require('path');
const { Readable } = require('stream');
const { Violation, load, vscode, fsys, Uri, scratch, shards } = require('./lib.js');

const TOOLS = { dove: ['bootstrapDoveExecutable', 'move.doveExecutablePath'], 'move-language-server': ['bootstrapLanguageServer', 'move.languageServerPath'] };
const LABEL = { linux: 'linux', darwin: 'darwin', win32: 'win' };
const fits = (name, tool, platform) => name.startsWith(tool) && (platform === 'win32' ? name.replace(/darwin/g, '').includes('win') : name.includes(LABEL[platform]));

function permutations(xs) {
    if (xs.length <= 1) return [xs];
    return xs.flatMap((x, i) => permutations([...xs.slice(0, i), ...xs.slice(i + 1)]).map((p) => [x, ...p]));
}

exports.cases = (thorough) => {
    const res = [];
    const faults = thorough ? 4 : 3;
    const usual = ['dove-linux', 'dove-darwin', 'dove-win.exe', 'move-language-server-linux', 'move-language-server-darwin', 'move-language-server-win.exe'];
    for (const entry of [...Object.keys(TOOLS), 'bootstrap']) {
        for (const platform of ['linux', 'darwin', 'win32', 'freebsd']) {
            for (const explicit of [undefined, null, '', '/opt/x/dove', '~/bin/dove', 'dove', '~dove', '/a/~/dove']) {
                res.push({ entry, platform, explicit, assets: usual, installed: false, faults: explicit ? 1 : 0, token: undefined });
            }
        }
        // every order of the assets, and releases lacking some
        const tool = entry === 'bootstrap' ? 'dove' : entry;
        const three = usual.filter((n) => n.startsWith(tool));
        const other = usual.find((n) => !n.startsWith(tool));
        for (const platform of ['linux', 'darwin', 'win32']) {
            for (const assets of permutations([...three, other])) {
                res.push({ entry, platform, assets, installed: false, faults: 0 });
                if (assets[0] === three[0]) res.push({ entry, platform, assets, installed: true, faults: 0 });
            }
            for (const assets of [[], [other], ...three.map((t) => [t]), ...three.map((t) => three.filter((x) => x !== t))]) {
                res.push({ entry, platform, assets, installed: false, faults: 0 });
            }
        }
        // failures and what the user answers
        for (const installed of [false, true]) {
            for (const token of [undefined, 'old']) {
                res.unshift(...shards({ entry, platform: 'linux', assets: usual, installed, token, faults }, 8, 6));
            }
        }
    }
    for (const entry of [...Object.keys(TOOLS), 'bootstrap']) {
        const tool = entry === 'bootstrap' ? 'dove' : entry;
        // releases with many assets, the right one anywhere, next to ones that look alike
        for (const platform of ['linux', 'darwin', 'win32']) {
            const right = usual.find((n) => fits(n, tool, platform));
            const look = [right.toUpperCase(), 'x' + right, 'my-' + right, right.replace(LABEL[platform], 'x'), right.slice(1), right.replace(LABEL[platform], LABEL[platform].slice(0, -1)), `${LABEL[platform]}-${tool}`, tool, tool + '.tar.gz', 'completion.tgz', 'README']
                .filter((n) => !fits(n, tool, platform));
            const others = [...usual.filter((n) => n !== right && !fits(n, tool, platform)), ...look];
            for (const n of [1, 5, 30, 100, 300]) {
                const many = Array(n).fill(0).map((_, i) => (i < others.length ? others[i] : others[i % others.length] + '.' + i)).filter((x) => !fits(x, tool, platform));
                for (const at of [0, many.length >> 1, many.length]) {
                    const assets = [...many.slice(0, at), right, ...many.slice(at)];
                    res.push({ entry, platform, assets, installed: false, faults: 0 }, { entry, platform, assets, installed: true, faults: 0 });
                }
                res.push({ entry, platform, assets: many, installed: false, faults: 0 });
            }
            for (const l of look) res.push({ entry, platform, assets: [l, right], installed: false, faults: 0 }, { entry, platform, assets: [l], installed: false, faults: 0 });
            // several fit: the first one
            const more = [right + '.sha256', right, right.replace(tool, tool + '-1.2.2'), right + ' (1)', right.replace('.exe', '') + '-é'];
            for (const a of more) for (const b of more) if (a !== b) res.push({ entry, platform, assets: [a, b, 'x'], installed: false, faults: 0 });
        }
        for (const explicit of ['~', '~/', '~//x', '/opt/a b/dove', '/opt/d\u00e9/\u{1f600}', 'C:\\tools\\dove.exe', './dove', '../dove', ' /opt/x', '/opt/x ', '/', '$HOME/dove', '%APPDATA%/dove', '~me/dove', '\\\\host\\dove', '/' + 'x'.repeat(5000), '~/' + 'a/'.repeat(500), '/a/~/b', '~/~/b']) {
            for (const platform of ['linux', 'win32', 'freebsd']) res.push({ entry, platform, explicit, assets: usual, installed: false, faults: 0 });
        }
        // the same failures over and over, with the same answer
        for (const times of thorough ? [2, 6, 25, 100] : [2, 6, 25]) {
            for (const fails of ['refused', 'status 403']) for (const at of ['release', 'asset', 'both']) for (const answer of ['retry', 'update token', 'in turn']) for (const ends of ['works', 'closed', 'dismiss']) {
                res.push({ entry, platform: 'linux', assets: usual, installed: false, faults: times * 2, token: times % 4 ? 'old' : undefined, again: { times, fails, at, answer, ends } });
            }
            res.push({ entry, platform: 'linux', assets: usual, installed: false, faults: times, token: 'old', again: { times, fails: 'rename EBUSY', at: 'rename', answer: 'retry', ends: 'works' } });
        }
    }
    for (const token of ['', ' ', 'a b', 'ghp_' + 'x'.repeat(3000), 'tok:en', '0', 'null', 'undefined']) res.push({ entry: 'dove', platform: 'linux', assets: usual, installed: false, faults: 1, token });
    return res;
};
exports.notes = (thorough) => ({ bounds: `all configurations, platforms and orders of up to 4 assets without faults; up to ${thorough ? 4 : 3} failures with every user answer; releases of up to 300 assets and series of up to ${thorough ? 100 : 25} failures with the same answer each` });
exports.assumptions = ['a tool counts as usable if running it with --version ends with status 0, as the extension decides it'];

exports.runCase = async (c, world) => {
    const tool = c.entry === 'bootstrap' ? 'dove' : c.entry;
    const dir = scratch();
    world.cleanup = () => fs.rmSync(dir, { recursive: true, force: true });
    const storage = path.join(dir, 'storage');
    if (c.entry !== 'bootstrap' || c.installed) fs.mkdirSync(storage, { recursive: true });
    const urlOf = (name) => 'https://github.example/download/' + name;
    const content = (name) => 'binary ' + name;
    if (c.installed) for (const a of c.assets) if (fits(a, tool, c.platform)) fs.writeFileSync(path.join(storage, a), 'installed ' + a);

    let token = c.token;
    const log = []; // what is observable from outside: requests, questions, runs of the tool
    const headersOf = (o) => {
        const res = {};
        const h = (o && o.headers) || {};
        const entries = typeof h.forEach === 'function' ? (() => { const r = []; h.forEach((v, k) => r.push([k, v])); return r; })() : Object.entries(h);
        for (const [k, v] of entries) res[k.toLowerCase()] = v;
        return res;
    };
    const fetch = (url, o) => {
        url = String(url);
        const api = url.startsWith('https://api.github.com/');
        const auth = headersOf(o).authorization;
        log.push({ request: api ? 'release' : url, auth, tokenThen: token });
        const no = (status) => ({ ok: false, status, statusText: 'no', headers: { get: () => null }, text: async () => 'sorry' });
        const kind = api ? 'release request' : 'asset request';
        const answer = api
            ? () => ({ ok: true, status: 200, headers: { get: () => null }, json: async () => ({ name: 'r', id: 1, published_at: '', assets: c.assets.map((n) => ({ name: n, browser_download_url: urlOf(n) })) }), text: async () => '' })
            : () => {
                const data = Buffer.from(content(path.basename(url)));
                return { ok: true, status: 200, headers: { get: () => String(data.length) }, body: Readable.from([data]) };
            };
        const broken = () => { throw Object.assign(new Error(kind + ' ECONNRESET ' + log.length), { code: 'ECONNRESET' }); };
        if (c.again) {
            const seen = log.filter((e) => e.request && (e.request === 'release') === api).length;
            const due = c.again.at === 'both' || c.again.at === (api ? 'release' : 'asset');
            // (a failing last series: nothing works until the user gives up)
            world.force = due && seen <= c.again.times ? c.again.fails : c.again.at === 'rename' && !api && seen <= c.again.times ? c.again.fails : null;
        }
        return world.wait(kind, [
            { name: 'answered', run: answer },
            { name: 'refused', fault: true, run: () => { broken(); } },
            { name: 'status 403', fault: true, run: () => { return no(403); } },
        ]);
    };
    const answers = [];
    const showErrorMessage = (message, ...rest) => {
        const items = rest.filter((i) => i && (typeof i === 'string' || i.title));
        const title = (i) => (typeof i === 'string' ? i : i.title);
        if (items.length === 0) {
            log.push({ message: String(message) });
            return Promise.resolve(undefined);
        }
        const find = (re) => items.find((i) => re.test(title(i)));
        const entry = { question: String(message), titles: items.map(title) };
        log.push(entry);
        const outcomes = [
            { name: 'retry', run: () => { entry.answer = 'retry'; return find(/retry/i); } },
            { name: 'closed', run: () => { entry.answer = 'closed'; return undefined; } },
            { name: 'update token', run: () => { entry.answer = 'token'; return find(/token/i); } },
        ];
        if (c.again) {
            const n = log.filter((e) => e.question).length;
            const last = c.again.ends !== 'works' && n === c.again.times;
            const a = last ? (c.again.ends === 'dismiss' && !find(/dismiss/i) ? 'closed' : c.again.ends) : c.again.answer === 'in turn' ? ['retry', 'update token'][n % 2] : c.again.answer;
            if (a !== 'dismiss') outcomes.splice(0, 3, outcomes.find((o) => o.name === a));
            else outcomes.splice(0, 3);
            if (a !== 'dismiss') return world.wait('question', outcomes);
        }
        if (find(/dismiss/i)) outcomes.push({ name: 'dismiss', run: () => { entry.answer = 'dismiss'; return find(/dismiss/i); } });
        return world.wait('question', outcomes);
    };
    const showInputBox = () => {
        const entry = { input: true };
        log.push(entry);
        const possible = c.again ? [['tok', '', undefined, 't\u00f6k ' + log.length][log.filter((e) => e.input).length % 4]] : ['tok', '', undefined];
        return world.wait('token', possible.map((v) => ({ name: JSON.stringify(v) || 'aborted', run: () => {
            entry.value = v;
            return v;
        } })));
    };
    const spawnSync = (cmd, args) => {
        const entry = { run: cmd, args };
        log.push(entry);
        return world.pick('run ' + path.basename(cmd), [
            { name: 'works', run: () => { entry.works = true; return { status: 0, stdout: '1', stderr: '' }; } },
            { name: 'fails', fault: c.faults > 0, run: () => ({ status: 1, stdout: '', stderr: 'bad' }) },
            { name: 'missing', fault: c.faults > 0, run: () => ({ status: null, error: Object.assign(new Error('spawnSync ENOENT'), { code: 'ENOENT' }) }) },
            { name: 'killed', fault: c.faults > 0, run: () => ({ status: null, signal: 'SIGSEGV', stdout: '', stderr: '' }) },
        ]);
    };
    const stat = (uri) => (fs.existsSync(uri.fsPath) ? Promise.resolve({ type: 1 }) : Promise.reject(new Error('FileNotFound')));
    const config = { 'move.trace.extension': true };
    const [fn, key] = TOOLS[tool];
    if (c.explicit !== undefined) config[key] = c.explicit;
    // the rename at the end of a download may fail
    const realFs = fsys(world, { faults: { rename: ['EBUSY'] } });
    const ext = load(world, {
        vscode: vscode({
            config,
            window: { showErrorMessage, showInputBox },
            workspace: { fs: { stat, createDirectory: async (u) => { log.push({ mkdir: u.fsPath }); fs.mkdirSync(u.fsPath, { recursive: true }); } } },
        }),
        fs: realFs,
        os: { ...require('os'), homedir: () => '/home/me' },
        child_process: { ...require('child_process'), spawnSync },
        'node-fetch': { __esModule: true, default: fetch },
        'vscode-languageclient/node': {},
    }, { platform: c.platform });

    const context = { globalStorageUri: Uri.file(storage), extensionUri: Uri.file('/ext'), subscriptions: [] };
    const updates = [];
    const state = new ext.persistent_state.PersistentState({
        get: (k) => (k === 'githubToken' ? token : undefined),
        update: async (k, v) => { updates.push([k, v]); if (k === 'githubToken') token = v; },
        keys: () => ['githubToken'],
    });
    world.maxSteps = 5000;
    let result = null;
    const call = c.entry === 'bootstrap' ? ext.bootstrap.bootstrap(context, state).then((r) => r.doveExecutablePath) : ext.bootstrap[fn](context, state);
    call.then((value) => { result = { ok: true, value }; }, (error) => { result = { ok: false, error }; });
    world.digest = () => JSON.stringify(log) + !!result;
    await world.loop();
    if (!result) throw new Violation('hang', 'the search neither succeeds nor fails');

    // ------------------------------------------------ what should have happened
    const fail = (key, what) => { throw new Violation(key, `${what}\nobserved: ${JSON.stringify(log)}\nresult: ${result.ok ? result.value : result.error}`); };
    const network = log.filter((e) => e.request || e.question || e.input);
    let pos = 0;
    let lastToken = c.token;
    // one network step: requests separated by questions; returns whether it succeeded in the end
    const step = (request, failed) => {
        for (;;) {
            const e = network[pos++];
            if (!e || e.request !== request) fail('wrong-request', `expected a request for ${request}, there was ${JSON.stringify(e)}`);
            if (request === 'release') {
                const want = lastToken == null ? undefined : 'token ' + lastToken;
                if (e.auth !== want) fail('wrong-token', `the request has authorization ${e.auth} instead of ${want}`);
            }
            if (!failed()) return true;
            const q = network[pos++];
            if (!q || !q.question) fail('no-question', `a failed step is followed by ${JSON.stringify(q)}`);
            if (q.answer === 'token') {
                const i = network[pos++];
                if (!i || !i.input) fail('no-input', 'the token is not asked for');
                if (i.value !== undefined) lastToken = i.value === '' ? undefined : i.value;
                continue;
            }
            if (q.answer === 'retry') continue;
            return q;
        }
    };
    // which attempts failed, in order
    const attempts = { release: [], asset: [] };
    for (const t of world.trace) {
        const m = /^(release|asset) request: (.*)$/.exec(t);
        if (m) attempts[m[1]].push(m[2] !== 'answered');
        else if (/ EBUSY$/.test(t)) attempts.asset[attempts.asset.length - 1] = true;
    }
    const releaseFailed = () => attempts.release.shift();
    const assetFailed = () => attempts.asset.shift();
    const expectFailure = (q) => {
        if (result.ok) fail('failure-unreported', 'the search should have failed');
        if (pos !== network.length) fail('too-many-steps', `after the user gave up there was ${JSON.stringify(network[pos])}`);
        if (!(result.error instanceof Error)) fail('failure-unreported', 'the failure is not an error');
        if (q && c.entry !== 'bootstrap' && !q.question.includes(result.error.message)) fail('other-error', `the user was told "${q.question}", the caller "${result.error.message}"`);
    };
    const finish = (expected, checkRun) => {
        if (pos !== network.length) fail('too-many-steps', `unexpected: ${JSON.stringify(network[pos])}`);
        if (tool === 'dove') {
            const runs = log.filter((e) => e.run !== undefined);
            if (!runs.some((r) => r.run === expected)) fail('unchecked', `${expected} was never tried`);
            if (!runs.some((r) => r.run === expected && r.works)) return expectFailure();
        }
        if (!result.ok) fail('failed-without-cause', 'the search should have succeeded with ' + expected);
        if (result.value !== expected) fail('wrong-path', `the search settled on ${result.value} instead of ${expected}`);
    };
    if (c.explicit) {
        return finish(c.explicit.startsWith('~/') ? '/home/me' + c.explicit.slice(1) : c.explicit);
    }
    if (!LABEL[c.platform]) {
        if (!log.some((e) => e.message)) fail('unreported', 'nobody is told that the platform is not supported');
        return expectFailure();
    }
    const got = step('release', releaseFailed);
    if (got !== true) return expectFailure(got);
    const asset = c.assets.find((n) => fits(n, tool, c.platform));
    if (!asset) return expectFailure();
    const dest = path.join(storage, asset);
    if (!c.installed) {
        const done = step(urlOf(asset), assetFailed);
        if (done !== true) return expectFailure(done);
        if (fs.readFileSync(dest, 'utf8') !== content(asset)) fail('wrong-contents', 'the installed file is not what was served');
    } else if (fs.readFileSync(dest, 'utf8') !== 'installed ' + asset) fail('replaced', 'the installed file was replaced');
    finish(dest);
};
