'use strict';
// Exploration of the editor extension: the real code is bundled, run with stand-ins for its environment, and
// every choice the environment has (what completes next, and how) is enumerated depth first.
const fs = require('fs');
const path = require('path');
const vm = require('vm');
const os = require('os');
const crypto = require('crypto');
const { EventEmitter } = require('events');

const VERIF = process.env.VERIF_DIR || path.resolve(__dirname, '../..');
const REPO = process.env.VERIF_REPO || '/repo';

class Violation extends Error {
    constructor(key, detail) {
        super(key);
        this.key = key;
        this.detail = detail;
    }
}
exports.Violation = Violation;

// ------------------------------------------------------------------ the code under test

let script = null;
function compile() {
    if (script) return script;
    const esbuild = require('/opt/veriftools/node/node_modules/esbuild');
    const src = path.join(REPO, 'editors/code/src');
    const parts = ['extension', ...fs.readdirSync(path.join(src, 'components')).filter((f) => f.endsWith('.ts'))
        .map((f) => 'components/' + f.slice(0, -3))];
    const contents = parts.map((p) => `export * as ${path.basename(p)} from ${JSON.stringify('./' + p)};`).join('\n');
    const res = esbuild.buildSync({
        stdin: { contents, resolveDir: src, loader: 'ts' },
        bundle: true, platform: 'node', format: 'cjs', write: false, logLevel: 'silent',
        external: ['vscode', 'node-fetch', 'vscode-languageclient', 'vscode-languageclient/*'],
    });
    script = vm.runInThisContext(
        '(function(require, module, exports, process, setTimeout, clearTimeout, setInterval, clearInterval){' +
            res.outputFiles[0].text + '\n})',
        { filename: 'extension.bundle.js' }
    );
    return script;
}
exports.compile = compile;

// Evaluates the extension with stand-ins for the modules it needs.
exports.load = function load(world, modules, proc) {
    const req = (name) => {
        name = name.replace(/^node:/, '');
        if (name in modules) return modules[name];
        if (name === 'fs/promises' && modules.fs) return modules.fs.promises;
        return require(name);
    };
    const module = { exports: {} };
    const fakeProcess = new Proxy(process, {
        get(target, key) {
            if (proc && key in proc) return proc[key];
            const v = target[key];
            return typeof v === 'function' ? v.bind(target) : v;
        },
    });
    let timers = 0;
    const live = new Set();
    const setTimer = (again) => (f, ms, ...args) => {
        const id = ++timers;
        live.add(id);
        const arm = () => world.gate('timer', [{ name: 'fires', run: () => {
            if (!live.has(id)) return;
            if (again && world.timerBudget-- > 0) arm();
            f(...args);
        } }]);
        arm();
        return id;
    };
    compile()(req, module, module.exports, fakeProcess, setTimer(false), (id) => live.delete(id), setTimer(true),
        (id) => live.delete(id));
    return module.exports;
};

// ------------------------------------------------------------------ choices

const skip = new Error('skip');
class World {
    constructor(ch, faults) {
        this.ch = ch;
        this.faults = faults;
        this.pending = [];
        this.trace = [];
        this.hashes = [];
        this.steps = 0;
        this.maxSteps = 400;
        this.fds = new Set();
        this.timerBudget = 3;
        // how often what waits longest may be passed over (it then waits until nothing else can happen or it is
        // let in front at the same price); undefined: no bound
        this.switches = undefined;
        // events come after every `pace.every` steps (or when nothing else is left), except `pace.slips` times; undefined: any time
        this.pace = undefined;
        this.since = 0;
        // what goes wrong next, if not any fault: the name of an outcome, or null for none
        this.force = undefined;
        this.observe = () => {};
        this.digest = () => '';
    }
    // Something the environment will do at a time of its choosing, in one of several ways.
    gate(label, outcomes) {
        this.pending.push({ label, outcomes });
    }
    // The same as a promise: an outcome's run() gives the value or throws.
    wait(label, outcomes) {
        return new Promise((resolve, reject) => {
            this.gate(label, outcomes.map((o) => ({ name: o.name, fault: o.fault, run: () => {
                let v;
                try {
                    v = o.run ? o.run() : undefined;
                } catch (e) {
                    return reject(e);
                }
                resolve(v);
            } })));
        });
    }
    possible(outcomes) {
        if (this.force === undefined) return outcomes.filter((o) => !o.fault || this.faults > 0);
        const forced = outcomes.filter((o) => o.fault && o.name === this.force);
        return forced.length ? forced : outcomes.filter((o) => !o.fault);
    }
    fault() {
        this.faults--;
        if (this.force !== undefined) this.force = null;
    }
    // An immediate choice.
    pick(label, outcomes) {
        const possible = this.possible(outcomes);
        const o = possible[this.ch(possible.length, label)];
        if (o.fault) this.fault();
        this.trace.push(label + ': ' + o.name);
        return o.run ? o.run() : undefined;
    }
    async settle() {
        for (let i = 0; i < 4; i++) await new Promise(setImmediate);
    }
    // Runs until nothing is left to happen. `events` gives further things that can happen now.
    async loop(events = () => []) {
        for (;;) {
            await this.settle();
            if (this.skip) throw skip;
            this.observe();
            let acts = [];
            if (this.switches !== undefined) this.pending = [...this.pending.filter((p) => !p.late), ...this.pending.filter((p) => p.late)];
            this.pending.forEach((p, i) => {
                if (i > 0 && this.switches === 0) return;
                for (const o of this.possible(p.outcomes)) acts.push([p, o]);
            });
            const evs = events().map((e) => [null, e]);
            if (this.pace === undefined || acts.length === 0 || evs.length === 0) acts.push(...evs);
            else {
                const first = this.since >= this.pace.every;
                const [one, other] = first ? [evs, acts] : [acts, evs];
                acts = [...one, ...(this.pace.slips > 0 ? other.map(([p, o]) => [p, o, true]) : [])];
            }
            this.hashes.push(crypto.createHash('md5').update(this.digest() + '|' +
                acts.map(([p, o]) => (p ? p.label : '') + o.name).join(',') + '|' + this.faults + '|' + this.switches + (this.pace ? `|${this.pace.slips}|${this.since}` : '')).digest('hex'));
            if (acts.length === 0) return;
            if (++this.steps > this.maxSteps) throw new Violation('runaway', 'too many steps:\n' + this.trace.slice(-40).join('\n'));
            const [p, o, slip] = acts[this.ch(acts.length, 'step')];
            if (slip) this.pace.slips--;
            this.since = p ? this.since + 1 : 0;
            if (o.fault) this.fault();
            if (p && this.switches !== undefined && p !== this.pending[0]) {
                this.switches--;
                for (const q of this.pending.slice(0, this.pending.indexOf(p))) q.late = true;
            }
            this.trace.push((p ? p.label + ': ' : '') + o.name);
            if (p) this.pending.splice(this.pending.indexOf(p), 1);
            o.run();
        }
    }
}
exports.World = World;

// ------------------------------------------------------------------ stand-ins

class Uri {
    constructor(scheme, p) {
        this.scheme = scheme;
        this.path = p;
        this.authority = '';
        this.query = '';
        this.fragment = '';
    }
    get fsPath() {
        return this.path;
    }
    toString() {
        return this.scheme + '://' + this.path;
    }
    with(c) {
        return new Uri(c.scheme || this.scheme, c.path || this.path);
    }
    static file(p) {
        return new Uri('file', p);
    }
    static parse(s) {
        const m = /^([a-z]+):\/\/(.*)$/.exec(s);
        return new Uri(m[1], m[2]);
    }
    static joinPath(u, ...p) {
        return new Uri(u.scheme, path.posix.join(u.path, ...p));
    }
}
exports.Uri = Uri;

class Disposable {
    constructor(f) {
        this.f = f;
    }
    dispose() {
        const f = this.f;
        this.f = undefined;
        return f && f();
    }
    static from(...ds) {
        return new Disposable(() => ds.forEach((d) => d.dispose()));
    }
}
exports.Disposable = Disposable;

class VsEvent {
    constructor() {
        this.handlers = [];
        this.event = (f, self, disposables) => {
            const h = self ? f.bind(self) : f;
            this.handlers.push(h);
            const d = new Disposable(() => {
                const i = this.handlers.indexOf(h);
                if (i >= 0) this.handlers.splice(i, 1);
            });
            if (disposables) disposables.push(d);
            return d;
        };
    }
    fire(e) {
        for (const h of [...this.handlers]) {
            try {
                const r = h(e);
                // the editor logs what its listeners reject with
                if (r && r.catch) r.catch(() => {});
            } catch (err) {}
        }
    }
}
exports.VsEvent = VsEvent;

exports.vscode = function vscode(over) {
    const channel = () => ({ name: '', append() {}, appendLine() {}, clear() {}, show() {}, hide() {}, replace() {}, dispose() {} });
    const config = over.config || {};
    const quiet = async () => undefined;
    return {
        __esModule: true,
        Uri, Disposable,
        EventEmitter: VsEvent,
        ProgressLocation: { SourceControl: 1, Window: 10, Notification: 15 },
        TaskGroup: { Build: { id: 'build' }, Test: { id: 'test' }, Clean: { id: 'clean' }, Rebuild: { id: 'rebuild' } },
        ShellExecution: class { constructor(...a) { this.args = a; } },
        ProcessExecution: class { constructor(...a) { this.args = a; } },
        Task: class { constructor(...a) { this.args = a; } },
        window: {
            createOutputChannel: channel,
            showErrorMessage: quiet, showInformationMessage: quiet, showWarningMessage: quiet, showInputBox: quiet,
            setStatusBarMessage: () => new Disposable(),
            withProgress: async (o, task) => task({ report() {} }, { isCancellationRequested: false, onCancellationRequested: new VsEvent().event }),
            activeTextEditor: undefined,
            onDidChangeActiveTextEditor: new VsEvent().event,
            ...over.window,
        },
        workspace: {
            getConfiguration: (section) => ({
                get: (key, dflt) => {
                    const v = config[(section ? section + '.' : '') + key];
                    return v === undefined ? dflt : v;
                },
                has: (key) => (section ? section + '.' : '') + key in config,
                inspect: () => undefined,
                update: quiet,
            }),
            getWorkspaceFolder: () => undefined,
            workspaceFolders: undefined,
            ...over.workspace,
            fs: { stat: quiet, createDirectory: quiet, ...(over.workspace || {}).fs },
        },
        commands: { registerCommand: () => new Disposable(), executeCommand: quiet, ...over.commands },
        tasks: { registerTaskProvider: () => new Disposable(), ...over.tasks },
        env: {}, extensions: { getExtension: () => undefined },
        ...over.top,
    };
};

// The file system: the real one below a scratch directory, every operation of which completes when the
// environment wants it to and may fail. What is not one step on a real system is not one step here.
exports.fsys = function fsys(world, opts = {}) {
    const err = (code, name, p) => Object.assign(new Error(`${code}: ${name} '${p}'`), { code, syscall: name, path: p });
    const half = (n) => Math.floor(n / 2);
    const codes = {
        open: ['EACCES'], close: ['EIO'], rename: ['EPERM', 'EXDEV'], copyFile: ['EIO'], writeFile: ['ENOSPC'], appendFile: ['ENOSPC'],
        chmod: ['EPERM'], fchmod: ['EPERM'], fsync: ['EIO'], fdatasync: ['EIO'], unlink: ['EPERM'], rm: ['EPERM'], truncate: ['EIO'], ftruncate: ['EIO'],
        link: ['EPERM'], symlink: ['EPERM'], mkdir: ['EACCES'], mkdtemp: ['EACCES'],
    };
    const flat = (b) => (typeof b === 'string' ? Buffer.from(b) : Buffer.from(b.buffer ? b.buffer : b, b.byteOffset || 0, b.byteLength));
    // what an operation does, and what of it happens when it fails midway
    const act = (name, args) => {
        switch (name) {
            case 'copyFile': {
                const data = fs.readFileSync(args[0]);
                return {
                    part: () => { const fd = fs.openSync(args[1], typeof args[2] === 'number' && args[2] & 1 ? 'wx' : 'w', fs.statSync(args[0]).mode); world.observe(); fs.writeSync(fd, data, 0, half(data.length)); fs.closeSync(fd); world.observe(); },
                    full: () => fs.writeFileSync(args[1], data),
                };
            }
            case 'writeFile':
            case 'appendFile': {
                const data = flat(args[1]);
                const o = typeof args[2] === 'string' ? {} : args[2] || {};
                let fd;
                return {
                    part: () => { fd = typeof args[0] === 'number' ? args[0] : fs.openSync(args[0], o.flag || (name === 'writeFile' ? 'w' : 'a'), o.mode); world.observe(); fs.writeSync(fd, data, 0, half(data.length)); world.observe(); if (o.fails && fd !== args[0]) fs.closeSync(fd); },
                    full: () => { fs.writeSync(fd, data, half(data.length)); if (fd !== args[0]) fs.closeSync(fd); },
                };
            }
            case 'write': {
                const b = typeof args[1] === 'string' ? Buffer.from(args[1]) : args[1];
                const [off, len, pos] = typeof args[1] === 'string' ? [0, b.length, args[2]] : [args[2] || 0, args[3] === undefined ? b.length - (args[2] || 0) : args[3], args[4]];
                const at = typeof pos === 'number' ? pos : null;
                return { part: () => fs.writeSync(args[0], b, off, half(len), at), undo: true, full: () => fs.writeSync(args[0], b, off, len, at) };
            }
            case 'writev': {
                const all = Buffer.concat(args[1].map(flat));
                const at = typeof args[2] === 'number' ? args[2] : null;
                return { part: () => fs.writeSync(args[0], all, 0, half(all.length), at), undo: true, full: () => fs.writeSync(args[0], all, 0, all.length, at) };
            }
            case 'close':
                return { full: () => { world.fds.delete(args[0]); fs.closeSync(args[0]); } };
            case 'open':
                return { full: () => { const fd = fs.openSync(...args); world.fds.add(fd); return fd; } };
            default:
                return { full: () => fs[name + 'Sync'](...args) };
        }
    };
    const outcomes = (name, args, done) => {
        const label = typeof args[0] === 'string' || args[0] instanceof Uri ? path.basename(String(args[0])).slice(0, 4) : '';
        const res = [{ name: name + ' ok', run: () => {
            let v;
            try {
                const a = act(name, args);
                if (a.part && !a.undo) a.part();
                v = a.full();
            } catch (e) {
                if (e instanceof Violation) throw e;
                return done(e);
            }
            done(null, v);
        } }];
        for (const code of (opts.faults || {})[name] || []) {
            res.push({ name: `${name} ${code}`, fault: true, run: () => done(err(code, name, args[0])) });
        }
        if (opts.faulty) {
            for (const code of codes[name] || []) {
                res.push({ name: `${name} ${code}`, fault: true, run: () => {
                    if (name === 'close') { world.fds.delete(args[0]); try { fs.closeSync(args[0]); } catch (e) {} }
                    done(err(code, name, args[0]));
                } });
            }
            if (['write', 'writev', 'copyFile', 'writeFile', 'appendFile'].includes(name)) {
                res.push({ name: name + ' disk full midway', fault: true, run: () => {
                    try {
                        const a = act(name, name === 'writeFile' || name === 'appendFile' ? [args[0], args[1], { ...(typeof args[2] === 'object' ? args[2] : {}), fails: true }] : args);
                        a.part();
                    } catch (e) {
                        if (e instanceof Violation) throw e;
                        return done(e);
                    }
                    done(err('ENOSPC', name, args[0]));
                } });
            }
        }
        return { label: `${name} ${label}`, res };
    };
    const names = ['open', 'close', 'write', 'writev', 'rename', 'unlink', 'rm', 'chmod', 'fchmod', 'mkdir', 'rmdir', 'stat', 'lstat', 'fstat', 'access',
        'copyFile', 'writeFile', 'appendFile', 'readFile', 'fsync', 'fdatasync', 'truncate', 'ftruncate', 'readdir', 'utimes', 'link', 'symlink', 'realpath', 'mkdtemp'];
    const m = { ...fs };
    const promises = { ...fs.promises };
    for (const name of names) {
        const call = (args, done) => {
            const { label, res } = outcomes(name, args, done);
            world.gate(label, res);
        };
        m[name] = (...args) => {
            const cb = args.pop();
            if (name === 'write') return call(args, (e, n) => cb(e, n, args[1]));
            if (name === 'writev') return call(args, (e, n) => cb(e, n, args[1]));
            call(args, cb);
        };
        m[name][require('util').promisify.custom] = (...args) => new Promise((ok, no) => call(args, (e, v) => (e ? no(e) : ok(v))));
        m[name + 'Sync'] = (...args) => {
            let e, v;
            const { label, res } = outcomes(name, args, (a, b) => { e = a; v = b; });
            world.observe();
            world.pick(label, res);
            world.observe();
            if (e) throw e;
            return v;
        };
        if (name !== 'open') promises[name] = (...args) => new Promise((ok, no) => call(args, (e, v) => (e ? no(e) : ok(v))));
    }
    m.exists = (p, cb) => m.stat(p, (e) => cb(!e));
    m.existsSync = (p) => fs.existsSync(p);
    promises.open = async (p, flags, mode) => {
        const fd = await m.open[require('util').promisify.custom](p, flags || 'r', mode);
        const on = (name) => (...args) => promises[name](fd, ...args);
        return {
            fd, close: on('close'), write: async (...a) => ({ bytesWritten: await on('write')(...a) }), writeFile: on('writeFile'), appendFile: on('writeFile'),
            sync: on('fsync'), datasync: on('fdatasync'), chmod: on('fchmod'), truncate: on('ftruncate'), stat: on('fstat'),
            createWriteStream: (o) => m.createWriteStream('', { ...o, fd }),
        };
    };
    m.createWriteStream = (p, o) => new fs.WriteStream(p, { ...(typeof o === 'string' ? { encoding: o } : o), fs: { open: m.open, write: m.write, writev: m.writev, close: m.close, fsync: m.fsync } });
    m.promises = promises;
    m.default = m;
    return m;
};

// Cuts the exploration of a case into n parts by what is chosen in the first `depth` choices.
exports.shards = (c, n, depth) => [...Array(n).keys()].map((k) => ({ ...c, shard: [k, n, depth] }));

exports.scratch = function scratch() {
    const base = fs.existsSync('/dev/shm') ? '/dev/shm' : os.tmpdir();
    return fs.mkdtempSync(path.join(base, 'mcts-'));
};

// A child process the environment drives.
exports.Child = class Child extends EventEmitter {
    constructor() {
        super();
        const { Readable, Writable } = require('stream');
        this.stdout = new Readable({ read() {} });
        this.stderr = new Readable({ read() {} });
        this.stdin = new Writable({ write(c, e, cb) { cb(); } });
        this.pid = 4711;
        this.exitCode = null;
        this.killed = false;
    }
    kill() {
        this.killed = true;
        return true;
    }
};

// ------------------------------------------------------------------ exploration

// Runs one case for every sequence of choices. `report` gets the violations.
async function explore(mod, c, cfg, st) {
    let prefix = cfg.prefix || [];
    for (;;) {
        const trace = [];
        const ch = (n, label) => {
            const i = trace.length;
            const v = n <= 1 ? 0 : i < prefix.length ? prefix[i] : 0;
            if (v >= n) throw new Error('the run is not deterministic: choice ' + v + ' of ' + n + ' at ' + label);
            trace.push([v, Math.max(n, 1)]);
            if (c.shard && trace.length === c.shard[2]) {
                // this part of the tree is explored under another case
                const h = crypto.createHash('md5').update(trace.map((t) => t[0]).join()).digest().readUInt16LE(0);
                if (h % c.shard[1] !== c.shard[0]) world.skip = true;
            }
            return v;
        };
        const world = new World(ch, c.faults === undefined ? 0 : c.faults);
        world.switches = c.switches;
        let stray = null;
        let skipped = false;
        cfg.stray = (e) => { stray = stray || e; };
        try {
            await mod.runCase(c, world, cfg);
            await world.settle();
            if (world.skip) throw skip;
            if (stray && !mod.ignoreStray) throw new Violation('stray-error', 'an error nobody handles: ' + ((stray && stray.stack) || stray));
        } catch (e) {
            if (e === skip || world.skip) skipped = true;
            else if (stray && !mod.ignoreStray && !(e instanceof Violation)) e = new Violation('stray-error', 'an error nobody handles: ' + stray.stack);
            if (!skipped && !(e instanceof Violation)) throw e;
            if (!skipped) st.violations.push({
                key: JSON.stringify(c) + ' / ' + e.key,
                detail: e.detail + '\nwhat happened:\n  ' + world.trace.join('\n  '),
                case: c, choices: trace.map((t) => t[0]),
            });
            if (!skipped) return;
        } finally {
            // (runs that are given up)
            for (const fd of world.fds) try { fs.closeSync(fd); } catch (e) {}
            if (world.cleanup) world.cleanup();
        }
        if (!skipped) {
            st.executions++;
            st.transitions += world.trace.length;
        }
        for (const h of world.hashes) st.states.add(h);
        if (!skipped && st.samples.length < 2) st.samples.push({ case: c, trace: world.trace.slice(0, 40) });
        if (cfg.prefix) return;
        let k = trace.length - 1;
        while (k >= 0 && trace[k][0] >= trace[k][1] - 1) k--;
        if (k < 0) return;
        prefix = trace.slice(0, k).map((t) => t[0]);
        prefix.push(trace[k][0] + 1);
    }
}

async function worker(id, tier, k, n) {
    const mod = require('./' + id.toLowerCase() + '.js');
    const cases = mod.cases(tier === 'thorough');
    const st = { executions: 0, transitions: 0, states: new Set(), violations: [], samples: [] };
    const cfg = {};
    process.on('uncaughtException', (e) => cfg.stray && cfg.stray(e));
    process.on('unhandledRejection', (e) => cfg.stray && cfg.stray(e));
    let left = null;
    const ask = () => new Promise((r) => { left = r; process.send({ next: true }); });
    await new Promise((done) => {
        process.on('message', (m) => {
            left(m.i);
        });
        (async () => {
            for (;;) {
                const i = await ask();
                if (i < 0) break;
                process.send({ begin: i });
                const t0 = Date.now(), e0 = st.executions;
                await explore(mod, cases[i], cfg, st);
                if (process.env.MC_DEBUG) console.error(Date.now() - t0, 'ms', st.executions - e0, JSON.stringify(cases[i]));
                process.send({ end: i });
                if (st.violations.length) {
                    process.send({ violations: st.violations });
                    st.violations = [];
                }
            }
            process.send({ executions: st.executions, transitions: st.transitions, states: [...st.states], samples: st.samples }, done);
        })().catch((e) => {
            process.send({ broken: e.stack }, () => process.exit(2));
        });
    });
    process.exit(0);
}

async function parent(id, tier, replay) {
    const start = Date.now();
    const mod = require('./' + id.toLowerCase() + '.js');
    try {
        compile();
    } catch (e) {
        console.error('cannot bundle the extension: ' + e.message);
        process.exit(2);
    }
    if (replay) {
        const text = fs.readFileSync(replay, 'utf8');
        const r = JSON.parse(text.slice(text.lastIndexOf('\n{') + 1));
        const st = { executions: 0, transitions: 0, states: new Set(), violations: [], samples: [] };
        const cfg = { prefix: r.choices };
        process.on('uncaughtException', (e) => cfg.stray && cfg.stray(e));
        process.on('unhandledRejection', (e) => cfg.stray && cfg.stray(e));
        await explore(mod, r.case, cfg, st);
        for (const v of st.violations) console.log('VIOLATION property=' + id + ' replay=' + replay + '\n  ' + v.key + '\n  ' + v.detail);
        process.exit(st.violations.length ? 1 : 0);
    }
    const known = [];
    try {
        for (const line of fs.readFileSync(path.join(VERIF, 'known-findings.txt'), 'utf8').split('\n')) {
            const m = /^known: property=(\S+) key=(\S+) (.*)$/.exec(line);
            if (m && m[1] === id) known.push([m[2], m[3], false]);
        }
    } catch (e) {}
    const cases = mod.cases(tier === 'thorough');
    const total = { executions: 0, transitions: 0, states: new Set(), samples: [] };
    let found = 0;
    let broken = null;
    let next = 0;
    const report = (v) => {
        const k = known.find((k) => v.key.replace(/\s/g, '') === k[0]);
        if (k) {
            if (!k[2]) console.log(`KNOWN-FINDING: property=${id} ${k[1]}`);
            k[2] = true;
            return;
        }
        if (found++ < 3) {
            const dir = path.join(VERIF, 'evidence/replay');
            fs.mkdirSync(dir, { recursive: true });
            const f = path.join(dir, `${id}-${found - 1}.txt`);
            fs.writeFileSync(f, `property ${id}\nkey ${v.key}\n${v.detail}\n${JSON.stringify({ case: v.case, choices: v.choices })}\n`);
            console.log(`VIOLATION property=${id} replay=${f}`);
            console.log('  case: ' + v.key.slice(0, 400));
            console.log('  ' + v.detail.slice(0, 1500).replace(/\n/g, '\n  '));
        }
    };
    if (mod.extra) await mod.extra(tier === 'thorough', report, total);
    const n = Math.min(+process.env.MC_THREADS || os.cpus().length, Math.max(1, cases.length));
    const { fork } = require('child_process');
    const left = new Map();
    await Promise.all([...Array(n).keys()].map((k) => new Promise((done) => {
        const p = fork(path.join(__dirname, 'run.js'), [id, tier, '--worker', String(k), String(n)], { execArgv: ['--max-old-space-size=3000'] });
        // (a worker that goes away shows in its exit code)
        p.on('error', () => {});
        p.on('message', (m) => {
            if (m.next) p.send({ i: next < cases.length && found < 3 && !broken ? next++ : -1 });
            if (m.begin !== undefined) left.set(p, m.begin);
            if (m.end !== undefined) left.delete(p);
            if (m.violations) m.violations.forEach(report);
            if (m.broken) broken = m.broken;
            if (m.states) {
                total.executions += m.executions;
                total.transitions += m.transitions;
                m.states.forEach((s) => total.states.add(s));
                if (total.samples.length < 6) total.samples.push(...m.samples.slice(0, 1));
            }
        });
        // a case that makes no progress: the code under test spins
        let at = null;
        let since = Date.now();
        const timer = setInterval(() => {
            if (left.get(p) !== at) {
                at = left.get(p);
                since = Date.now();
            } else if (at !== undefined && Date.now() - since > (tier === 'thorough' ? 3600e3 : 600e3)) {
                broken = broken || 'no progress in case ' + JSON.stringify(cases[at]);
                p.kill('SIGKILL');
            }
        }, 2000);
        p.on('exit', (code) => {
            clearInterval(timer);
            if (code !== 0) broken = broken || 'a worker ended with ' + code + (left.has(p) ? ' in case ' + JSON.stringify(cases[left.get(p)]) : '');
            done();
        });
    })));
    const coverage = {
        states: total.states.size, transitions: total.transitions, traces_validated_against_impl: total.executions,
        samples: total.samples, exhaustive: found === 0 && !broken, cases: cases.length, ...(mod.notes ? mod.notes(tier === 'thorough') : {}), ...(total.notes || {}),
    };
    fs.mkdirSync(path.join(VERIF, 'evidence'), { recursive: true });
    const wall = (Date.now() - start) / 1000;
    fs.writeFileSync(path.join(VERIF, 'evidence', id + '.json'), JSON.stringify({
        property: id, tier, seed: +(process.env.VERIF_SEED || 1), level: 'model_checking', coverage,
        assumptions: mod.assumptions || [], wall_s: wall, violations: found,
    }, null, 2) + '\n');
    if (broken && !found) {
        console.error('no answer: ' + broken);
        process.exit(2);
    }
    console.log(`${id}: ${coverage.states} states, ${coverage.transitions} transitions, ${total.executions} executions, ${found} violations, ${wall.toFixed(1)}s`);
    process.exit(found ? 1 : 0);
}

exports.main = async function main() {
    const [id, tier, ...rest] = process.argv.slice(2);
    if (rest[0] === '--worker') return worker(id, tier, +rest[1], +rest[2]);
    return parent(id, tier, rest[0] === '--replay' ? rest[1] : null);
};
