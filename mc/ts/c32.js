'use strict';
// One server per workspace folder, whatever the order of events and start-up steps, and none after disposal.
const util = require('util');
const { Violation, load, vscode, Child, Uri, Disposable, VsEvent, shards } = require('./lib.js');

const FOLDERS = {
    A: { uri: Uri.file('/ws/a'), name: 'a', index: 0 },
    B: { uri: Uri.file('/ws/b'), name: 'b', index: 1 },
    // no project
    C: { uri: Uri.file('/ws/c'), name: 'c', index: 2 },
};
const META = {
    A: {
        package: {
            name: 'a', account_address: '0x1', authors: [], blockchain_api: null, local_dependencies: ['/ws/a/local'],
            git_dependencies: [{ git: 'g', local_paths: ['/ws/a/.git/1', '/ws/a/.git/2'] }], dialect: 'pont',
        },
        layout: { modules_dir: '/ws/a/modules', scripts_dir: '/ws/a/scripts', tests_dir: '/ws/a/tests' },
    },
    B: {
        package: {
            name: 'b', account_address: '0x2', authors: ['x'], blockchain_api: 'y', local_dependencies: [], git_dependencies: [], dialect: 'dfinance',
        },
        layout: { modules_dir: '/ws/b/src', scripts_dir: '/ws/b/scripts', tests_dir: '/ws/b/tests' },
    },
};
const INIT = {
    A: { dialect: 'pont', modules_folders: ['/ws/a/local', '/ws/a/.git/1', '/ws/a/.git/2', '/ws/a/modules'], sender_address: '0x1', stdlib_folder: null },
    B: { dialect: 'dfinance', modules_folders: ['/ws/b/src'], sender_address: '0x2', stdlib_folder: null },
};
const doc = (p, languageId, scheme = 'file') => ({ uri: new Uri(scheme, p), fileName: p, languageId });
const DOCS = {
    A1: doc('/ws/a/modules/m.move', 'move'), A2: doc('/ws/a/scripts/s.move', 'move'), AT: doc('/ws/a/Dove.toml', 'toml'), AX: doc('/ws/a/readme.md', 'markdown'),
    AG: doc('/ws/a/modules/m.move', 'move', 'git'),
    B1: doc('/ws/b/src/m.move', 'move'), BT: doc('/ws/b/Dove.toml', 'toml'), C1: doc('/ws/c/m.move', 'move'), O1: doc('/other/m.move', 'move'),
};
// More folders: one called like another, one whose path begins like another, one inside another, one with
// unusual characters, one with large metadata.
const WIDE = {
    D: { uri: Uri.file('/ws/ab'), name: 'a', index: 3 },
    E: { uri: Uri.file('/ws/a/inner'), name: 'a', index: 4 },
    F: { uri: Uri.file('/ws/\u00fc \u00f6/[x]'), name: '', index: 5 },
    G: { uri: Uri.file('/ws/A'), name: 'A', index: 6 },
};
const deep = Array(200).fill(0).map((_, i) => '/deps/' + i);
const meta = (name, root, local, git, dialect = 'diem', address = '0x' + name) => ({
    package: { name, account_address: address, authors: [], blockchain_api: null, local_dependencies: local, git_dependencies: git, dialect },
    layout: { modules_dir: root + '/modules', scripts_dir: root + '/scripts', tests_dir: root + '/tests' },
});
Object.assign(META, {
    D: meta('a', '/ws/ab', [], []),
    E: meta('a', '/ws/a/inner', ['/ws/a/inner/x', '/ws/a/inner/x'], [{ git: 'h', local_paths: [] }], 'pont', ''),
    F: meta('\u00fc', '/ws/\u00fc \u00f6/[x]', ['/ws/\u00fc \u00f6/[x]/\u{1f600}', ''], [], 'diem', '0x' + 'f'.repeat(40)),
    G: meta('g', '/ws/A', deep, [...deep.map((d) => ({ git: d, local_paths: [d + '/a', d + '/b'] }))]),
});
const opts = (m, ...folders) => ({ dialect: m.package.dialect, modules_folders: folders, sender_address: m.package.account_address, stdlib_folder: null });
Object.assign(INIT, {
    D: opts(META.D, '/ws/ab/modules'),
    E: opts(META.E, '/ws/a/inner/x', '/ws/a/inner/x', '/ws/a/inner/modules'),
    F: opts(META.F, '/ws/\u00fc \u00f6/[x]/\u{1f600}', '', '/ws/\u00fc \u00f6/[x]/modules'),
    G: opts(META.G, ...deep, ...deep.flatMap((d) => [d + '/a', d + '/b']), '/ws/A/modules'),
});
for (const k of Object.keys(WIDE)) {
    DOCS[k + '1'] = doc(WIDE[k].uri.path + '/modules/m.move', 'move');
    DOCS[k + '2'] = doc(WIDE[k].uri.path + '/sub/dir/m.move', 'move');
    DOCS[k + 'T'] = doc(WIDE[k].uri.path + '/Dove.toml', 'toml');
}
const nameOf = (folders, uri) => Object.keys(folders).filter((k) => uri.path.startsWith(folders[k].uri.path + '/')).sort((a, b) => folders[b].uri.path.length - folders[a].uri.path.length)[0];
const starts = (name) => name && name[0] !== 'C' && name[0] !== 'O' && !['AX', 'AG'].includes(name);

// A script: documents that become active, documents that are saved (s:), files created (c:) or deleted (d:),
// settings changed, the reload command, and the end.
const EVENTS = ['A1', 'A2', 'AT', 'AX', 'AG', 'B1', 'C1', 'O1', 'none', 's:AT', 's:A1', 'c:AT', 'd:BT', 'config', 'reload', 'end'];
// How many start-up sequences an event can cause.
const weight = (e) => ({ 's:AT': 3, 'c:AT': 2, 'd:BT': 2, config: 1, reload: 1, A1: 1, A2: 1, AT: 1, B1: 1, AX: 0.5, AG: 0.5, C1: 0.5 }[e] || 0);
exports.cases = (thorough) => {
    const res = [];
    const add = (c) => {
        if (c.long) return void res.push(c);
        const w = c.script.reduce((n, e) => n + weight(e), weight(c.first));
        res.push(...(w > 2 ? shards(c, w > 3 ? 8 : 4, 7) : [c]));
    };
    for (const first of ['none', 'A1', 'AX', 'B1']) {
        add({ first, script: [], faults: 2, all: true });
        for (const a of EVENTS) {
            add({ first, script: [a], faults: thorough ? 2 : 1, all: true });
            for (const b of EVENTS) {
                if (a === 'end' || (first === 'AX' && !thorough)) continue;
                const w = weight(first) + weight(a) + weight(b);
                if (w < (thorough ? 3 : 2)) add({ first, script: [a, b], faults: 1 });
                else if (w < (thorough ? 4 : 3)) add({ first, script: [a, b], faults: 0 });
                else add({ first, script: [a, b], faults: 0, switches: thorough ? 3 : 2 });
            }
        }
    }
    const small = thorough ? ['A1', 'A2', 'AT', 'B1', 's:AT', 'd:BT', 'reload', 'config', 'end'] : ['A1', 'B1', 'AT', 'reload', 'end'];
    for (const first of ['none', 'A1', 'B1']) {
        for (const a of small) for (const b of small) for (const d of small) {
            if (a === 'end' || b === 'end') continue;
            add({ first, script: [a, b, d], faults: 0, switches: thorough ? 2 : 1 });
        }
    }
    // long histories, and many folders: events at a steady pace
    const times = (n, ...x) => Array(n).fill(x).flat();
    const long = thorough ? 12 : 6;
    const histories = [];
    for (const x of ['A1', 'AT', 's:AT', 's:A1', 'c:AT', 'd:BT', 'config', 'reload', 'none']) for (const y of ['A1', 'A2', 'B1', 's:AT', 'd:BT', 'config', 'reload', 'C1', 'none']) histories.push(times(long, x, y));
    for (const x of ['s:AT', 'config', 'reload']) histories.push(times(3 * long, x), [...times(2 * long, x), 'end'], times(long, 'A1', 'B1', x));
    histories.push(times(20 * long, 'A1', 'B1'), times(20 * long, 'A1', 'A2'), times(5 * long, 'C1', 'O1', 'none', 'AX', 'AG', 'A1'), ['A1', ...times(5 * long, 'none'), 'reload', 'B1', 'end']);
    for (const script of histories) {
        for (const every of [0, 1, 2, 3, 5, 8, 1e9]) {
            const short = script.length < 20 && every > 0;
            add({ first: 'A1', script, faults: 0, switches: 0, every, slips: short ? 1 : 0, long: true });
        }
    }
    const order = ['A1', 'D1', 'B1', 'E1', 'F1', 'G1'];
    const wide = [order, [...order].reverse(), [...order, 'end'], [...order, 'reload', ...order], [...order, 'config', 'end'], [...order, ...order], ['E1', 'A1', 'E2', 'A2'], ['D1', 'A1', 'D2', 'A2'], ['G1', 'A1', 'G2'],
        ['A1', 's:ET', 'A2'], ['D1', 's:AT'], ['E1', 'c:AT', 'E2'], ['A1', 'd:ET'], ['F1', 's:FT', 'F2'], ['G1', 's:GT', 'reload', 'G2'], ['AT', 'DT', 'ET', 'E1', 'D1', 'A1'], ['E1', 'reload'], ['F1', 'config', 'D1'], ['E1', 'end'], ['A1', 'E1', 'end']];
    for (const script of wide) for (const first of ['none', 'E1']) {
        for (const every of [0, 1, 2, 3, 5, 1e9]) add({ first, script, faults: 0, switches: script.length > 4 ? 0 : 1, every, slips: 1, wide: true, long: true });
        if (script.length < 5) add({ first, script, faults: 1, switches: 0, every: 1e9, slips: 0, wide: true, long: true });
    }
    return res;
};
exports.notes = (thorough) => ({
    bounds: `scripts of up to 3 events of ${EVENTS.length} kinds after 4 initial documents; every interleaving with the start-up steps where at most ` +
        `${thorough ? 3 : 2} start-up sequences overlap, up to ${thorough ? 3 : 2} (3 events: ${thorough ? 2 : 1}) context switches otherwise; up to ${thorough ? 2 : 1} failures in the small scripts; histories of up to ${thorough ? 480 : 240} events and seven folders at every steady pace with at most one exception`,
});
// the editor logs what nobody handles
exports.ignoreStray = true;
exports.assumptions = ['the editor hands out one folder object per workspace folder', 'a document becomes active before the event that announces it', 'at the end the editor calls deactivate() and disposes the subscriptions'];

exports.runCase = async (c, world) => {
    const folders = c.wide ? { ...FOLDERS, ...WIDE } : FOLDERS;
    const projects = Object.keys(folders).filter((k) => INIT[k]);
    const folderName = (uri) => nameOf(folders, uri);
    if (c.long) {
        world.pace = { every: c.every, slips: c.slips };
        world.maxSteps = 100000;
    }
    let problem = null;
    const bad = (key, detail) => { problem = problem || new Violation(key, detail); };
    const clients = [];
    const providers = new Set();
    const commands = new Map();
    const messages = [];
    let ended = false;
    let failed = false;
    // folders in which a client is due
    let due = new Set();
    const fault = (o) => ({ ...o, fault: true, run: () => { failed = true; return o.run(); } });
    const no = (code) => () => { throw Object.assign(new Error(code), { code }); };

    class LanguageClient {
        constructor(id, name, server, client) {
            this.client = client;
            this.server = server;
            this.state = 'new';
            this.folder = Object.keys(folders).find((k) => client && client.workspaceFolder === folders[k]);
            clients.push(this);
        }
        start() {
            const k = this.folder;
            if (!INIT[k]) bad('stray-client', `a client was started for ${util.inspect(this.client.workspaceFolder)}`);
            else {
                const others = clients.filter((o) => o !== this && o.folder === k && o.state === 'running');
                if (others.length) bad('two-clients', `a second client was started for folder ${k}`);
                if (ended) bad('started-after-disposal', `a client was started for folder ${k} after the extension was disposed`);
                if (!util.isDeepStrictEqual(this.client.initializationOptions, INIT[k])) {
                    bad('wrong-metadata', `folder ${k} was started with ${util.inspect(this.client.initializationOptions)}`);
                }
                for (const run of [this.server.run, this.server.debug]) {
                    if (!run || typeof run.command !== 'string' || !run.options || run.options.cwd !== folders[k].uri.fsPath) bad('wrong-command', util.inspect(this.server));
                }
                for (const s of this.client.documentSelector) {
                    if (s.language !== 'move' || !String(s.pattern).startsWith(folders[k].uri.fsPath + '/')) bad('wrong-documents', util.inspect(this.client.documentSelector));
                }
            }
            this.state = 'running';
            return new Disposable(() => this.stop());
        }
        stop() {
            if (this.state === 'new' || this.state === 'stopped') {
                this.state = 'stopped';
                return Promise.resolve();
            }
            this.state = 'stopped';
            return world.wait('client stop', [{ name: 'done' }, fault({ name: 'fails', run: no('ECONNRESET') })]);
        }
        needsStop() { return this.state === 'running'; }
        needsStart() { return this.state === 'new'; }
        onReady() { return Promise.resolve(); }
        onDidChangeState() { return new Disposable(() => {}); }
    }

    const ev = {};
    for (const n of ['active', 'save', 'open', 'config', 'create', 'remove']) ev[n] = new VsEvent();
    const win = {
        activeTextEditor: DOCS[c.first] && { document: DOCS[c.first] },
        onDidChangeActiveTextEditor: ev.active.event,
        showErrorMessage: async (m) => { messages.push(m); },
    };
    const vs = vscode({
        config: { 'move.doveExecutablePath': '/tools/dove', 'move.languageServerPath': '/tools/mls', 'move.trace.extension': false },
        window: win,
        workspace: {
            workspaceFolders: Object.values(folders),
            getWorkspaceFolder: (u) => folders[folderName(u)],
            onDidSaveTextDocument: ev.save.event, onDidOpenTextDocument: ev.open.event,
            onDidChangeConfiguration: ev.config.event, onDidCreateFiles: ev.create.event, onDidDeleteFiles: ev.remove.event,
            onDidRenameFiles: new VsEvent().event, onDidChangeWorkspaceFolders: new VsEvent().event, onDidCloseTextDocument: new VsEvent().event,
            fs: {
                stat: (u) => world.wait('stat ' + u.path, projects.some((k) => u.path === folders[k].uri.path + '/Dove.toml')
                    ? [{ name: 'ok', run: () => ({ type: 1 }) }, fault({ name: 'fails', run: no('EACCES') })] : [{ name: 'missing', run: no('FileNotFound') }]),
                createDirectory: () => world.wait('createDirectory', [{ name: 'ok' }, fault({ name: 'fails', run: no('EACCES') })]),
            },
        },
        commands: {
            registerCommand: (name, f) => {
                if (commands.has(name)) throw new Error(`command '${name}' already exists`);
                commands.set(name, f);
                return new Disposable(() => { if (commands.get(name) === f) commands.delete(name); });
            },
            executeCommand: (name, ...args) => {
                const f = commands.get(name);
                if (!f) {
                    const p = Promise.reject(new Error(`command '${name}' not found`));
                    p.catch(() => {});
                    return p;
                }
                // (only what is active is brought up again)
                if (name === 'move.reload') due = new Set(starts(active) ? [active[0]] : []);
                return Promise.resolve().then(() => f(...args));
            },
        },
        tasks: {
            registerTaskProvider: (type, p) => {
                const o = { type, p };
                providers.add(o);
                return new Disposable(() => providers.delete(o));
            },
        },
    });
    let active = c.first;
    const spawn = (cmd, args, opts) => {
        const k = Object.keys(folders).find((k) => opts && opts.cwd === folders[k].uri.fsPath);
        if (cmd !== '/tools/dove' || !util.isDeepStrictEqual(args, ['metadata']) || !k) bad('wrong-tool', util.inspect([cmd, args, opts]));
        const child = new Child();
        const end = (out, err, code) => () => {
            if (out) child.stdout.push(out);
            if (err) child.stderr.push(err);
            child.stdout.push(null);
            child.stderr.push(null);
            setImmediate(() => { child.emit('exit', code, null); child.emit('close', code, null); });
        };
        const res = [{ name: 'ok', run: end(JSON.stringify(META[k]), '', 0) }];
        res.push(fault({ name: 'nothing', run: end('', 'bad manifest', 1) }), fault({ name: 'garbage', run: end('{', '', 0) }));
        if (c.all) res.push(fault({ name: 'cannot start', run: () => {
            child.emit('error', Object.assign(new Error('spawn ENOENT'), { code: 'ENOENT' }));
            end('', '', -2)();
        } }));
        world.gate('metadata ' + k, res);
        return child;
    };
    const spawnSync = (cmd) => world.pick('version ' + cmd, [{ name: 'ok', run: () => ({ status: 0, stdout: 'dove 1', stderr: '' }) }, fault({ name: 'fails', run: () => ({ status: 1, stdout: '', stderr: '' }) })]);

    const ext = load(world, {
        vscode: vs,
        'node-fetch': { __esModule: true, default: () => { throw new Error('not needed'); } },
        'vscode-languageclient/node': { __esModule: true, LanguageClient, TransportKind: { stdio: 0, ipc: 1, pipe: 2 } },
        child_process: { ...require('child_process'), spawn, spawnSync },
    });
    const memory = new Map();
    const context = {
        subscriptions: [], extensionUri: Uri.file('/ext'), globalStorageUri: Uri.file('/storage'), extensionPath: '/ext',
        globalState: { get: (k) => memory.get(k), update: async (k, v) => { memory.set(k, v); } },
    };
    if (starts(active)) due.add(active[0]);
    ext.extension.activate(context).catch(() => {});

    let at = 0;
    const fire = (e) => {
        if (e === 'config') return ev.config.fire({ affectsConfiguration: (s) => s === 'move' || s === 'move.x' });
        if (e === 'reload') return void vs.commands.executeCommand('move.reload').catch(() => {});
        if (e === 'end') {
            ended = true;
            Promise.resolve(ext.extension.deactivate()).catch(() => {});
            for (const d of context.subscriptions.splice(0)) {
                try {
                    const r = d.dispose();
                    if (r && r.catch) r.catch(() => {});
                } catch (err) {}
            }
            return;
        }
        const m = /^([scd]):(.*)$/.exec(e);
        if (m && m[1] === 's') {
            if (m[2][1] === 'T') due.add(m[2][0]);
            return ev.save.fire(DOCS[m[2]]);
        }
        if (m) return ev[m[1] === 'c' ? 'create' : 'remove'].fire({ files: [DOCS[m[2]].uri] });
        active = e;
        win.activeTextEditor = DOCS[e] && { document: DOCS[e] };
        vs.window.activeTextEditor = win.activeTextEditor;
        if (starts(e)) due.add(e[0]);
        ev.active.fire(win.activeTextEditor);
    };
    world.digest = () => [at, active, ended, failed, [...due].sort(), clients.map((x) => x.folder + x.state), providers.size, commands.size, context.subscriptions.length].join();
    const running = (k) => clients.filter((x) => x.folder === k && x.state === 'running').length;
    world.observe = () => {
        if (problem) throw problem;
        if (ended && clients.some((x) => x.state === 'running')) throw new Violation('running-after-disposal', 'a client is running although the extension was disposed');
    };
    await world.loop(() => (at < c.script.length && !ended ? [{ name: 'event ' + c.script[at], run: () => fire(c.script[at++]) }] : []));
    if (problem) throw problem;
    if (ended) {
        if (failed) return;
        const left = Object.keys(ev).filter((n) => ev[n].handlers.length);
        if (left.length) throw new Violation('handlers-left', `handlers for ${left} are still registered after disposal`);
        if (commands.size) throw new Violation('commands-left', `the commands ${[...commands.keys()]} are still registered after disposal`);
        if (providers.size) throw new Violation('tasks-left', 'a task provider is still registered after disposal');
        return;
    }
    for (const k of projects) {
        const n = running(k);
        if (n > 1) throw new Violation('two-clients', `${n} clients are running for folder ${k}`);
        if (!due.has(k) && n) throw new Violation('stray-client', `a client is running for folder ${k} in which nothing was opened`);
        if (due.has(k) && !failed && n !== 1) throw new Violation('no-client', `no client is running for folder ${k}`);
        if (failed) continue;
        let tasks = [];
        for (const o of providers) tasks.push(...(await o.p.provideTasks()));
        tasks = tasks.filter((t) => t.args[1] === folders[k]);
        const want = n ? ['build', 'test'] : [];
        const got = tasks.map((t) => t.args[0].subcommand).sort();
        if (!util.isDeepStrictEqual(got, want)) throw new Violation('wrong-tasks', `the tasks offered for folder ${k} are ${util.inspect(got)}`);
        for (const t of tasks) {
            const x = t.args[4].args;
            if (x[0] !== '/tools/dove' || !util.isDeepStrictEqual(x[1], [t.args[0].subcommand]) || !x[2] || x[2].cwd !== folders[k].uri.fsPath) throw new Violation('wrong-tasks', util.inspect(x));
        }
    }
};
