// Plans, their execution against the simulated tab and server, and the judging.
import { World, Page } from './page.mjs';

// ---------------------------------------------------------------- randomness

export class Rng {
    constructor(seed) { this.s = BigInt('0x' + hash('seed ' + seed)); for (let i = 0; i < 4; i++) this.u32(); }
    u32() {
        this.s = BigInt.asUintN(64, this.s + 0x9e3779b97f4a7c15n);
        let z = this.s;
        z = BigInt.asUintN(64, (z ^ (z >> 30n)) * 0xbf58476d1ce4e5b9n);
        z = BigInt.asUintN(64, (z ^ (z >> 27n)) * 0x94d049bb133111ebn);
        return Number((z ^ (z >> 31n)) & 0xffffffffn);
    }
    n(k) { return k <= 1 ? 0 : this.u32() % k; }
    range(a, b) { return a + this.n(b - a + 1); }
    one(p) { return this.n(p) === 0; }
    pick(a) { return a[this.n(a.length)]; }
    f() { return this.u32() / 4294967296; }
}

export function hash(s) {
    let h = 0xcbf29ce484222325n;
    for (let i = 0; i < s.length; i++) h = BigInt.asUintN(64, (h ^ BigInt(s.charCodeAt(i))) * 0x100000001b3n);
    return h.toString(16);
}

// ---------------------------------------------------------------- generation

// queries: as typed, what the server takes them for, and whether they are plain
// enough for the parts that match to be the same in both worlds.
const QUERIES = [
    ['foo', 'foo', 1], ['a', 'a', 1], ['o', 'o', 1], ['foo|bar', 'foo|bar', 1], ['[a-c]+', '[a-c]+', 1], ['<b>', '<b>', 1], ['&amp;', '&amp;', 1], ['"', '"', 1],
    ['^foo', '^foo', 1], ['foo$', 'foo$', 1], ['\\bfoo\\b', '\\bfoo\\b', 1], ['x*', 'x*', 1], ['^', '^', 1], ['$', '$', 1], ['', '', 1], ['a*b?', 'a*b?', 1], ['.', '.', 1], ['.*', '.*', 1],
    ['fo{2}', 'fo{2}', 1], ['(foo)+', '(foo)+', 1], ['é+', 'é+', 1], ['\\$&', '\\$&', 1], ['foo ', 'foo', 1], [' bar', 'bar', 1], ['foo|', 'foo|', 1],
    ['(?i)foo', '[fF][oO][oO]', 0], ['(?P<n>foo)', 'foo', 0], ['(?s)f.o', 'f.o', 0], ['a++', null, 0], ['(', null, 0], ['[', null, 0], ['foo)', null, 0], ['(?U)a+', 'a', 0],
    ['a.c', 'a.c', 1], ['a+b', 'a+b', 1], ['[x]', '[x]', 1], ['foo.bar(', null, 0], ['c++', null, 0], ['a=b&c', 'a=b&c', 1], ['100%', '100%', 1], ['#x', '#x', 1], ['foo;bar', 'foo;bar', 1],
];
const FRAGS = ['foo', 'bar', 'foofoo', 'FOO', 'Foo', '<b>foo</b>', '&amp;', '&lt;', '"', "'", 'a', 'ab', 'abc', 'aab', 'x', 'xx', ' ', '  ', '\t', 'é', 'éé', '日本', '😀', '$&', '$1', 'a=b&c', '100%', '#x', 'foo;bar', 'c++', 'foo.bar(', 'a.c', 'a+b', '[x]', '(', ')', '<script>alert(1)</script>', '<!--', '-->', '</div>', '<img src=x>', '\\', '{rev}', '{line}', '`', '\u00a0', 'foo)', 'a++', '='];
const DIRS = ['', '', 'src/', 'a b/', 'é/', '{path}/', '$&/', 'docs/', 'x/y/z/', 'c++/'];
const NAMES = ['a.go', 'b.go', 'README.md', 'Home.md', 'a#b.txt', 'what?.txt', '100%.txt', '$$.js', "$'.js", '$&.c', '{rev}.txt', '{anchor}', '{line}.md', '{filename}.x', 'x y.txt', 'é.txt', '日.txt', '<b>.html', 'a&b.c', 'a"b.c', "it's.c", 'a+b.c', 'a=b', 'Makefile', 'a%20b', '.dot', 'a;b', 'a:b', '[a].x'];
const URLS = ['https://github.com/YourOrg/RepoOne.git', 'https://github.com/YourOrg/RepoTwo', 'git@github.com:YourOrg/Repo.git', 'ssh://hg@bitbucket.org/YourOrg/Repo', 'ssh://git@bitbucket.org:7999/Proj/Repo.git', 'ssh://git@bitbucket.internal.com:7999/Proj/jira.git', 'https://github.com/YourOrg/Repo.wiki.git', 'https://svn.example.com/repos/trunk', 'file:///srv/src/thing', 'http://host:8080/a/b.git', 'https://example.com/$&/x', 'git@gitlab.com:group/sub/repo.git', 'https://example.com/mirror.git/thing', 'https://a.wiki.example.com/o/r.wiki.git', 'https://example.com/x.gitty', 'https://example.com/o.wiki/r', 'https://github.com/Org/Repo.git.git', 'svn://example.com/p', '/srv/plain', 'ssh://git@host/~user/repo.git', 'git@host:repo.git', 'https://[::1]:8443/o/r.git'];
const PATTERNS = [
    ['{url}/blob/{rev}/{path}{anchor}', '#L{line}'], ['{url}/blob/{rev}/{path}{anchor}', '#L{line}'], ['{url}/{path}{anchor}', '#L{line}'], ['{url}/{path}', ''],
    ['{url}/files/{path}{anchor}', '#line={line}'], ['https:{url}/src/master/{path}{anchor}', '#{filename}-{line}'],
    ['https:{hostname}/projects/{project}/repos/{repo}/browse/{path}?at={rev}{anchor}', '#{line}'], ['{url}/raw?path={path}&rev={rev}&again={path}{anchor}', '#L{line}-L{line}'],
    ['{url}{port}/{rev}/{unknown}/{path}{anchor}', '#{line}'],
];
const RNAMES = ['alpha', 'beta', 'c++', 'my repo', 'x&y', 'a=b', '100%', 'é', 'z#1', 'Repo-2', '<b>'];

function genFile(r, i, small, nested) {
    const lines = [];
    for (let n = r.one(8) ? r.range(10, 40) : r.range(1, 7); n > 0; n--) {
        let l = '';
        for (let k = small ? r.range(0, 2) : r.n(5); k > 0; k--) l += r.pick(FRAGS);
        lines.push(l);
    }
    return { name: nested ? 'd' + i + '/' + r.pick(NAMES) : r.pick(DIRS) + (i > 6 || r.one(2) ? i + '-' : '') + r.pick(NAMES), auto: r.one(6), lines };
}

function genVersion(r, k, big) {
    const m = new Map();
    const n = big ? r.pick([19, 20, 21, 25, 41, 60]) : r.n(6);
    const nested = r.one(3);
    for (let i = 0; i < n; i++) { const f = genFile(r, i, big, nested); m.set(f.name, f); }
    return { rev: r.pick(['0123456789abcdef', 'deadbeef', 'r', 'v']) + k, files: [...m.values()] };
}

export function gen(seed, index, deep) {
    const r = new Rng(`${seed}/${index}`);
    const plan = { prop: 'C31', seed, index, repos: [], steps: [] };
    const names = new Set();
    for (let n = r.pick([1, 1, 2, 2, 3, 4]); names.size < n;) names.add(r.pick(RNAMES));
    for (const name of names) {
        const [base, anchor] = r.pick(PATTERNS);
        const url = r.pick(URLS);
        const repo = { name, url, base, anchor, versions: [] };
        if (r.one(4)) repo.display = r.pick(['Shown', 'Nice <name>', 'a / b']);
        const big = r.one(4);
        for (let k = r.range(1, 3); k > 0; k--) repo.versions.push(genVersion(r, repo.versions.length, big));
        plan.repos.push(repo);
    }
    const ns = [...names];
    const large = plan.repos.some(p => p.versions.some(v => v.files.length > 20));
    const search = () => {
        const q = large && r.one(2) ? r.pick(['.', '.*', '^', '$', 'x*', 'a*b?', 'a', 'o']) : r.pick(QUERIES)[0];
        const s = { op: 'search', q, how: r.pick(['enter', 'enter', 'click', 'files', 'exclude']) };
        if (r.one(4)) s.files = r.pick(['\\.go$', 'src', 'md', 'a b', '[', '+']);
        if (r.one(5)) s.exclude = r.pick(['\\.go$', 'src', 'x']);
        if (r.one(3)) s.i = true;
        if (r.one(3)) s.lit = true;
        if (r.one(3)) s.repos = ns.filter(() => r.one(2));
        return s;
    };
    const open = () => {
        const s = { op: 'open', style: r.n(4), sp: r.n(60) };
        if (r.one(2)) Object.assign(s, { ...search(), op: 'open' });
        if (r.one(10)) s.noData = true;
        return s;
    };
    const net = () => {
        const k = r.n(8);
        return k < 3 ? { op: 'net', k: r.n(3) } : k === 3 ? { op: 'net', k: r.n(3), how: r.pick(['lost', '503', 'Error', 'garbage', 'lost']) } : k === 4 ? { op: 'serve', k: r.n(3) } : { op: 'net', k: 0 };
    };
    if (r.one(6)) {
        plan.excl = true;
        for (const repo of plan.repos) repo.excluded = Array.from({ length: r.pick([0, 1, 3, 8]) }, (_, i) => ({ Filename: r.pick(DIRS) + i + r.pick(NAMES), Reason: r.pick(['Not a text file.', 'Dot files are excluded.', 'Invalid Mode', '<b>']) }));
        plan.steps.push({ op: 'xopen' });
        for (let n = r.range(4, deep ? 40 : 14); n > 0; n--) plan.steps.push(r.one(2) ? { op: 'xclick', k: r.n(4) } : net());
        plan.steps.push({ op: 'settle' });
        return plan;
    }
    plan.steps.push(open());
    for (let n = r.range(4, deep ? 60 : 22); n > 0; n--) {
        if (large && r.one(8)) {
            // a search, its answer, and more of it
            const x = { op: 'search', q: r.pick(['.', '.*', '^', 'x*', 'a*b?']), how: 'enter' };
            plan.steps.push(x, { op: r.one(3) ? 'settle' : 'net', k: 0 }, { op: 'net', k: 0 }, { op: 'more', k: r.n(3), twice: r.one(3) });
            continue;
        }
        const k = r.n(24);
        plan.steps.push(k < 5 ? search() : k < 13 ? net() : k < 17 ? { op: 'more', k: r.n(3), twice: r.one(4) } : k < 18 ? { op: r.pick(['back', 'forward', 'back', 'reload']) }
            : k < 19 ? { op: 'toggle', what: r.pick(['file', 'repo', 'open', 'close']), k: r.n(5) } : k < 20 ? { op: 'update', k: r.n(4) } : k < 21 ? { op: 'edit', q: r.pick(QUERIES)[0] } : k < 22 ? { op: 'tick', ms: r.pick([1, 100, 5000]) } : { op: 'settle' });
    }
    plan.steps.push({ op: 'settle' });
    return plan;
}

// ---------------------------------------------------------------- reference

const escRe = s => s.replace(/[.*+?^${}()|[\]\\\/]/g, '\\$&');

// serverRe is what the server makes of a query; null: it answers with an error.
function serverRe(q, lit, ic) {
    let src;
    if (lit) src = escRe(q);
    else {
        const e = QUERIES.find(e => e[0].trim() === q.trim());
        src = e ? e[1] : q;
        if (src === null) return null;
    }
    try { return new RegExp(src, ic ? 'iu' : 'u'); } catch (e) { try { return new RegExp(src, ic ? 'i' : ''); } catch (e2) { return null; } }
}

const yes = v => ['fosho', 'true', '1'].includes(String(v ?? '').toLowerCase());

// matchRepo is the full answer of a repository at a version.
function matchRepo(v, p) {
    const re = serverRe(p.q, p.lit, p.i);
    let fre = null, xre = null;
    try { if (p.files) fre = new RegExp(p.files); if (p.exclude) xre = new RegExp(p.exclude); } catch (e) { return null; }
    if (!re) return null;
    const out = [];
    for (const f of v.files) {
        if (fre && !fre.test(f.name) || xre && xre.test(f.name)) continue;
        const ms = [];
        let prev = -1;
        f.lines.forEach((l, n) => {
            if (!re.test(l)) return;
            ms.push({ Line: l, LineNumber: n + 1, Before: f.lines.slice(Math.max(prev + 1, n - 2), n), After: f.lines.slice(n + 1, n + 3) });
            prev = n;
        });
        if (ms.length) out.push({ Filename: f.name, Matches: ms, AutoGenerated: f.auto });
    }
    return out;
}

function fillVars(tpl, vars) {
    return tpl.replace(/\{(\w+)\}/g, (all, n) => Object.hasOwn(vars, n) ? vars[n] : all);
}

const urlPath = p => encodeURI(p).replace(/[?#]/g, encodeURIComponent);

// link is the address of a line in the upstream browser. Several spellings of one
// address are the same to everybody.
function link(repo, path, line, rev) {
    let url = repo.url.replace(/\.git$/, '');
    const base = path.split('/').pop();
    let anchor = line ? fillVars(repo.anchor, { line, filename: urlPath(base) }) : '';
    path = urlPath(path);
    if (/\.wiki$/.test(url)) {
        url = url.replace(/\.wiki$/, '/wiki');
        path = path.replace(/\.md$/, '');
        anchor = '';
    }
    let hostname = '', port = '', project = '', name = '';
    const m = /(git|hg)@(.*?)(:[0-9]+)?(:|\/)(.*)(\/)(.*)/.exec(url);
    if (m) {
        hostname = '//' + m[2];
        port = m[3] || '';
        project = m[5];
        name = m[7];
        url = hostname + port + '/' + project + '/' + name;
    }
    return fillVars(repo.base, { url, hostname, port, project, repo: name, path, rev, anchor });
}

// sameLink compares addresses regardless of which harmless characters are escaped.
export function canonLink(s) {
    return s.replace(/%([0-9A-Fa-f]{2})/g, (a, h) => { const c = String.fromCharCode(parseInt(h, 16)); return /[A-Za-z0-9\-._~!$&'()*+,;=:@\[\]{}|^`"<> \\]/.test(c) ? c : '%' + h.toUpperCase(); });
}

function nameOf(repo) {
    if (repo.display) return repo.display;
    const u = repo.url, ax = u.lastIndexOf('/');
    if (ax < 0) return repo.name;
    const name = u.substring(ax + 1).replace(/\.git$/, ''), bx = u.lastIndexOf('/', ax - 1);
    return bx < 0 ? name : u.substring(bx + 1, ax) + ' / ' + name;
}

// spans is what is emphasised in a line that matches.
function spans(line, p) {
    let re;
    try { re = new RegExp(p.lit ? escRe(p.q) : p.q, p.i ? 'gi' : 'g'); } catch (e) { return []; }
    const out = [];
    let last = -1;
    for (const m of line.matchAll(re)) if (m[0] !== '') out.push(m[0]);
    return out;
}

// ---------------------------------------------------------------- execution

export class Run {
    constructor(plan, sources, trace) {
        this.plan = plan;
        this.src = sources;
        this.world = new World();
        this.rand = new Rng(`${plan.seed}/${plan.index}/run`);
        this.cur = plan.repos.map(() => 0);
        this.violations = [];
        this.stats = {};
        this.faults = {};
        this.states = new Set();
        this.trace = trace;
        this.outcomes = [];
        this.want = null;
        this.searchNo = 0;
    }
    stat(k) { this.stats[k] = (this.stats[k] || 0) + 1; }
    fault(k) { this.faults[k] = (this.faults[k] || 0) + 1; }
    violate(cls, sig, msg) { this.violations.push({ class: cls, sig, msg: msg.slice(0, 900) }); }
    say(s) { if (this.trace) console.log(s); this.world.note(s); }

    config() {
        const o = {};
        for (const r of this.plan.repos) {
            o[r.name] = { url: r.url, vcs: 'git', 'ms-between-poll': 30000, 'url-pattern': { 'base-url': r.base, anchor: r.anchor } };
            if (r.display) o[r.name]['display-name'] = r.display;
        }
        return o;
    }

    // serve works a request out, as the server stands now.
    serve(req) {
        if (req.served) return;
        const q = req.q;
        let body, info = {};
        if (req.url === 'api/v1/repos') body = this.config();
        else if (req.url === 'api/v1/excludes') {
            const r = this.plan.repos.find(r => r.name === q.repo);
            body = r ? r.excluded || [] : { Error: 'No such repository: ' + q.repo };
            info.repo = q.repo;
        } else if (req.url === 'api/v1/search') {
            const p = { q: q.q || '', i: yes(q.i), lit: yes(q.literal), files: q.files || '', exclude: q.excludeFiles || '' };
            const sel = String(q.repos || '').trim() === '*' ? this.plan.repos.map(r => r.name) : String(q.repos || '').trim().split(',');
            const [b, e] = String(q.rng || '').includes(':') ? q.rng.split(':').map(x => parseInt(x, 10) || 0) : [0, 0];
            const Results = {};
            let files = 0, bad = false;
            info.vers = {};
            this.plan.repos.forEach((r, i) => {
                if (!sel.includes(r.name)) return;
                const all = matchRepo(r.versions[this.cur[i]], p);
                if (all === null) { bad = true; return; }
                const part = all.slice(b, e > 0 ? b + e : undefined);
                files += all.length;
                info.vers[r.name] = this.cur[i];
                if (part.length) Results[r.name] = { Matches: part, FilesWithMatch: all.length, Revision: r.versions[this.cur[i]].rev };
            });
            if (bad || p.q === '' && false) body = { Error: 'error parsing regexp: ' + p.q };
            else {
                body = { Results };
                if (yes(q.stats)) body.Stats = { FilesOpened: files, Duration: [0, 3, 12, 999, 1000, 12345, 1234567][parseInt(hash(p.q + req.id).slice(-3), 16) % 7] };
            }
            info.body = body;
        } else { req.served = { body: '', info, status: 404 }; return; }
        req.served = { body: JSON.stringify(body), info };
    }

    pending() { return this.world.requests.filter(r => !r.done && r.page === this.world.page); }

    deliver(req, how) {
        this.serve(req);
        req.done = true;
        req.how = how || 'ok';
        this.say(`deliver ${req.id} ${req.how}`);
        this.stat('responses');
        if (how) this.fault(how);
        const s = req.served;
        let ok = false;
        const page = this.world.page;
        if (how === 'lost') page.guard(() => req.bad(0, '', ''));
        else if (how === '503') page.guard(() => req.bad(503, 'Service Unavailable', 'Hound is not ready.\n'));
        else if (how === 'garbage') page.guard(() => req.ok('<html>bad gateway'));
        else if (how === 'Error') page.guard(() => req.ok('{"Error":"boom"}'));
        else if (s.status) page.guard(() => req.bad(s.status, 'Not Found', ''));
        else { ok = !s.body.startsWith('{"Error"'); page.guard(() => req.ok(s.body)); }
        this.outcomes.push({ req, ok, how: req.how });
    }

    // params of the search that the user has asked for
    setWant(p) {
        this.edited = false;
        this.want = { ...p, first: this.world.requests.length, no: ++this.searchNo };
        this.toggled = false;
        this.mores = [];
    }

    open(s, url) {
        const w = this.world;
        if (w.page) { w.page.closed = true; }
        const html = `<div id="root">${s.excl ? '' : '<div id="result"></div>'}</div>`;
        if (url !== undefined) { w.history.splice(w.at + 1); if (w.page) { w.history.push(url); w.at++; } else w.history[0] = url; }
        this.fromUrl();
        const p = new Page(w, this.src, s.excl ? this.src.excluded : this.src.hound, url, html, s.noData || s.excl ? undefined : JSON.stringify(this.config()), () => this.rand.f());
        this.noData = s.noData;
        void p;
    }

    // what the address asks for
    fromUrl() {
        const u = this.world.history[this.world.at], i = u.indexOf('?');
        const q = new URLSearchParams(i < 0 ? '' : u.slice(i));
        const repos = (q.get('repos') ?? '').split(',').filter(x => x !== '' && x !== '*');
        const p = { q: q.get('q') ?? '', i: yes(q.get('i')), lit: yes(q.get('literal')), files: q.get('files') ?? '', exclude: q.get('excludeFiles') ?? '', repos: this.valid(repos), raw: repos };
        this.setWant({ ...p, blank: p.q === '', page: true });
    }

    valid(repos) {
        const v = [...new Set(repos)].filter(n => this.plan.repos.some(r => r.name === n));
        return v;
    }

    async drain() { for (let i = 0; i < 3; i++) await new Promise(f => setImmediate(f)); }

    async step(s) {
        const w = this.world, page = w.page;
        this.say('step ' + JSON.stringify(s));
        switch (s.op) {
            case 'open': {
                let url = '/';
                if (s.q !== undefined || s.files) {
                    const e = s.style === 1 ? x => encodeURIComponent(x).replace(/%20/g, '+') : encodeURIComponent;
                    const kv = [['q', s.q || '']];
                    if (s.i || s.style === 2) kv.push(['i', s.i ? ['fosho', 'true', '1', 'TRUE', 'FoSho'][s.sp % 5 || 0] : 'nope']);
                    if (s.lit || s.style === 2) kv.push(['literal', s.lit ? ['fosho', 'True', '1'][s.sp % 3 || 0] : 'nope']);
                    if (s.files) kv.push(['files', s.files]);
                    if (s.exclude) kv.push(['excludeFiles', s.exclude]);
                    if (s.repos && s.repos.length) kv.push(['repos', (s.sp % 4 === 1 ? [...s.repos, s.repos[0]] : s.repos).join(',')]);
                    url = '/?' + (s.sp % 6 === 2 ? 'junk&' : '') + kv.map(([k, v]) => k + '=' + e(v)).join('&') + (s.sp % 6 === 3 ? '&utm=x&' : '');
                }
                this.open(s, url);
                break;
            }
            case 'reload': if (page && !this.plan.excl) this.open({}); break;
            case 'back': case 'forward': {
                if (!page) break;
                const to = w.at + (s.op === 'back' ? -1 : 1);
                if (to < 0 || to >= w.history.length) break;
                w.at = to;
                this.fromUrl();
                this.want.page = false;
                this.want.blank = false;
                page.winEvent('popstate', { state: null });
                break;
            }
            case 'edit': if (page && page.$('#q')) page.$('#q').value = s.q; this.edited = true; break;
            case 'search': {
                if (!page || !page.$('#q')) break;
                if (this.noData && !this.outcomes.some(o => o.req.url === 'api/v1/repos' && o.req.page === page && o.ok)) break;
                const f = { q: page.$('#q'), files: page.$('#files'), exclude: page.$('#excludeFiles'), i: page.$('#ignore-case'), lit: page.$('#literal-search'), repos: page.$('#repos') };
                if (Object.values(f).some(x => !x)) { this.violate('page', 'controls', 'the page has lost its controls'); break; }
                f.q.value = s.q;
                f.files.value = s.files || '';
                f.exclude.value = s.exclude || '';
                f.i.checked = !!s.i;
                f.lit.checked = !!s.lit;
                if (s.repos) {
                    for (const o of f.repos.options) o.selected = s.repos.includes(o.value);
                    page.event(f.repos, 'change');
                }
                let repos = f.repos.options.filter(o => o.selected).map(o => o.value);
                const n0 = w.requests.length;
                this.setWant({ q: s.q.trim(), files: (s.files || '').trim(), exclude: (s.exclude || '').trim(), i: !!s.i, lit: !!s.lit, repos: this.valid(repos), form: true });
                this.want.first = n0;
                const at = s.how === 'files' ? f.files : s.how === 'exclude' ? f.exclude : f.q;
                if (s.how === 'click') page.event(page.$('#dodat'), 'click');
                else page.event(at, 'keydown', { keyCode: 13, which: 13, key: 'Enter' });
                this.stat('searches');
                this.checkUrl();
                break;
            }
            case 'net': {
                const ps = this.pending();
                if (ps.length) this.deliver(ps[s.k % ps.length], s.how);
                break;
            }
            case 'serve': {
                const ps = this.pending();
                if (ps.length) this.serve(ps[s.k % ps.length]);
                break;
            }
            case 'more': {
                if (!page) break;
                const bs = page.$$('.moar');
                if (!bs.length) break;
                const b = bs[s.k % bs.length];
                this.stat('mores');
                const rv = b.closest('.repo');
                if (rv) this.mores.push({ name: rv.querySelector('.name').textContent, had: rv.querySelectorAll('.file').length, no: this.want && this.want.no, at: w.requests.length });
                page.event(b, 'click');
                if (s.twice && b.parentNode) page.event(b, 'click');
                break;
            }
            case 'toggle': {
                if (!page) break;
                this.toggled = true;
                const act = page.$$('.actions button');
                if (s.what === 'file') { const t = page.$$('.file .title'); if (t.length) this.toggle(t[s.k % t.length], '.file'); }
                else if (s.what === 'repo') { const t = page.$$('.repo > .title, .repo .title').filter(e => e.parentNode.classList.contains('repo')); if (t.length) page.event(t[s.k % t.length], 'click'); }
                else if (act.length) {
                    page.event(act[s.what === 'open' ? 0 : 1], 'click');
                    for (const e of page.$$('.file')) if (e.classList.contains('open') !== (s.what === 'open')) { this.violate('page', 'expand-all', `after "${s.what} all" the file ${e.querySelector('.title').textContent} is ${e.className}`); break; }
                }
                break;
            }
            case 'update': {
                const i = s.k % this.plan.repos.length;
                if (this.cur[i] + 1 < this.plan.repos[i].versions.length) { this.cur[i]++; this.stat('updates'); }
                break;
            }
            case 'tick': w.now += s.ms; if (page) page.fire(); break;
            case 'settle': {
                for (let n = 0; n < 200; n++) {
                    w.now += 50;
                    if (page) page.fire();
                    await this.drain();
                    const ps = this.pending();
                    if (!ps.length) { if (n > 60) break; continue; }
                    this.deliver(ps[0]);
                    await this.drain();
                }
                this.settled = true;
                break;
            }
            case 'xopen': this.open({ excl: true }, '/excluded_files.html'); break;
            case 'xclick': {
                const bs = page.$$('.repo-button');
                if (!bs.length) break;
                const b = bs[s.k % bs.length];
                this.xwant = { repo: b.textContent, first: w.requests.length };
                this.stat('searches');
                page.event(b, 'click');
                break;
            }
        }
        await this.drain();
    }

    toggle(t, sel) {
        const e = t.closest(sel), was = e.classList.contains('open');
        this.world.page.event(t, 'click');
        if (e.classList.contains('open') === was) this.violate('page', 'toggle', 'a click on the title of a file does not open or close it');
    }

    // checkUrl: after a search the address asks for the same search.
    checkUrl() {
        const u = this.world.history[this.world.at], i = u.indexOf('?');
        const q = new URLSearchParams(i < 0 ? '' : u.slice(i)), a = this.want;
        const got = { q: q.get('q') ?? '', i: yes(q.get('i')), lit: yes(q.get('literal')), files: q.get('files') ?? '', exclude: q.get('excludeFiles') ?? '' };
        for (const k in got) if (got[k] !== a[k]) { this.violate('address', k, `after a search for ${JSON.stringify(a)} the address is ${u}`); return; }
        if (a.repos) {
            const r = this.valid((q.get('repos') ?? '').split(',').filter(x => x && x !== '*')).sort(), all = this.plan.repos.length;
            const norm = x => x.length === 0 || x.length === all ? '*' : x.join();
            if (norm(r) !== norm([...a.repos].sort())) this.violate('address', 'repos', `after a search in ${JSON.stringify(a.repos)} the address is ${u}`);
        }
    }

    // checkForm: the form shows the search that the page is about, so that the next one
    // can start from it.
    checkForm() {
        const $ = x => this.world.page.$(x), a = this.want;
        if (!$('#q')) return;
        const got = { q: $('#q').value, i: $('#ignore-case').checked, lit: $('#literal-search').checked, files: $('#files').value, exclude: $('#excludeFiles').value };
        for (const k in got) if ((typeof got[k] === 'string' ? got[k].trim() : got[k]) !== (typeof got[k] === 'string' ? a[k].trim() : a[k])) { this.violate('page', 'form', `the search is ${JSON.stringify(a)}, the form has ${k} = ${JSON.stringify(got[k])}`); return; }
        const norm = x => x.length === 0 || x.length === this.plan.repos.length ? '*' : [...x].sort().join();
        const sel = $('#repos').options.filter(o => o.selected).map(o => o.value);
        if (norm(sel) !== norm(a.repos)) this.violate('page', 'form', `the search is in ${JSON.stringify(a.repos)}, the form has ${JSON.stringify(sel)} selected`);
    }

    // sameSearch: the request asks for what the user wants.
    sameSearch(req) {
        const q = req.q, a = this.want;
        if (req.url !== 'api/v1/search' || req.id < a.first) return false;
        if ((q.q || '') !== a.q || yes(q.i) !== a.i || yes(q.literal) !== a.lit || (q.files || '') !== a.files || (q.excludeFiles || '') !== a.exclude) return false;
        return true;
    }
    fullSearch(req) {
        const a = this.want, sel = req.q.repos === '*' ? [] : String(req.q.repos).split(',');
        const rng = String(req.q.rng || '');
        if (/^[1-9]/.test(rng)) return false;
        if (a.repos === null) return true;
        const norm = x => x.length === 0 || x.length === this.plan.repos.length ? '*' : [...x].sort().join();
        return norm(this.valid(sel)) === norm(a.repos) || norm(sel) === norm(a.raw || a.repos);
    }

    // view reads the page as a user would.
    view() {
        const d = this.world.page;
        const no = d.$('#no-result');
        if (no) {
            if (no.classList.contains('error')) return { kind: 'error', text: no.textContent };
            if (no.querySelector('img')) return { kind: 'busy' };
            return { kind: 'none' };
        }
        const res = d.$('#result');
        if (!res) return { kind: 'broken' };
        const repos = res.querySelectorAll('.repo').map(r => ({
            name: (r.querySelector('.name') || { textContent: '' }).textContent,
            files: r.querySelectorAll('.file').map(f => {
                const a = f.querySelector('.title a');
                return {
                    name: a ? a.textContent : '', href: a ? a.getAttribute('href') : '', auto: !!f.querySelector('.file-badge'), open: f.classList.contains('open'),
                    blocks: f.querySelectorAll('.match').map(m => m.querySelectorAll('.line').map(l => {
                        const n = l.querySelector('.lnum'), v = l.querySelector('.lval');
                        return {
                            no: n ? n.textContent : '', href: n ? n.getAttribute('href') : '', text: v ? v.textContent : '',
                            em: v ? v.childNodes.filter(c => c.nodeType === 1).map(c => c.localName === 'em' && c.childNodes.every(x => x.nodeType === 3) ? c.textContent : '<' + c.localName + '>') : [],
                        };
                    })),
                };
            }),
            more: r.querySelectorAll('.moar').map(b => b.textContent),
        }));
        return repos.length ? { kind: 'results', repos } : { kind: 'blank' };
    }

    judge(last) {
        const page = this.world.page;
        if (!page) return;
        if (page.hung) { this.violate('page-hang', 'hang', `the page does not come to an end`); return; }
        if (page.errors.length) {
            // an exception in a handler: what the user sees is what counts, and is judged below
            this.stat('exceptions');
            this.say('exception ' + page.errors.join('; '));
            this.lastErr = page.errors.join('; ');
            page.errors = [];
        }
        if (this.plan.excl) return this.judgeExcl(last);
        if (this.noData && this.pending().some(r => r.url === 'api/v1/repos')) return;
        if (this.noData && this.outcomes.some(o => o.req.url === 'api/v1/repos' && o.req.page === page && !o.ok)) return;
        const v = this.view(), a = this.want;
        if (last && !this.edited) this.checkForm();
        this.states.add(hash(v.kind + '/' + (v.repos ? v.repos.map(r => r.files.length + ':' + r.more.length).join() : '') + '/' + this.pending().length + '/' + (a && a.q)));
        const bad = (sig, msg) => this.violate('page', sig, `search ${JSON.stringify({ q: a.q, i: a.i, lit: a.lit, files: a.files, exclude: a.exclude, repos: a.repos })}: ${msg}${this.lastErr ? ' (exception: ' + this.lastErr + ')' : ''}`);
        for (const r of this.world.requests) {
            if (r.page !== page || r.id < a.first || r.url !== 'api/v1/search') continue;
            if (this.sameSearch(r) && (/^[1-9]/.test(String(r.q.rng || '')) || this.fullSearch(r))) continue;
            return this.violate(a.form ? 'page' : 'address', 'request', `${a.form ? 'the form' : 'the address ' + this.world.history[this.world.at]} asks for ${JSON.stringify({ q: a.q, i: a.i, lit: a.lit, files: a.files, exclude: a.exclude, repos: a.repos })}, the request is for ${JSON.stringify(r.q)}`);
        }
        const mine = this.outcomes.filter(o => o.req.page === page && this.sameSearch(o.req));
        const first = mine.filter(o => this.fullSearch(o.req));
        const pend = this.pending().filter(r => this.sameSearch(r));
        if (a.q === '') {
            if (v.kind !== 'none' && v.kind !== 'blank' && v.kind !== 'busy') return bad('empty-query', `nothing is asked for, the page shows ${v.kind}`);
            if (v.kind === 'busy' && last) return bad('empty-query-busy', 'nothing is asked for, the page goes on searching');
            if (v.kind === 'blank' && !a.page) return bad('empty-query-blank', 'nothing was asked for, the page shows nothing at all');
            return;
        }
        switch (v.kind) {
            case 'busy':
                if (last) return bad('stuck', `all responses have arrived (${mine.map(o => o.how).join()}), the page goes on searching`);
                return;
            case 'error':
                if (!mine.some(o => !o.ok)) return bad('wrong-error', `the page shows an error (${v.text}) without any in the search`);
                if (last && mine.length && mine.every(o => o.ok)) return bad('error-stays', 'the page shows an error');
                if (last && mine.length && mine.reduce((x, y) => x.req.id > y.req.id ? x : y).ok && mine.filter(o => !o.ok).every(o => this.outcomes.indexOf(o) < this.outcomes.indexOf(mine.reduce((x, y) => x.req.id > y.req.id ? x : y)))) return bad('error-stays', `the page shows ${v.text}, the last response was good`);
                return;
            case 'blank': case 'broken':
                return bad('blank', 'the page shows nothing');
            case 'none': {
                if (!first.some(o => o.ok && Object.keys(o.req.served.info.body.Results).length === 0)) return bad('false-none', `the page says that there are no results; responses: ${first.map(o => o.how + ' ' + Object.keys((o.req.served.info.body || {}).Results || {})).join('; ')}`);
                return;
            }
        }
        // results
        const oks = first.filter(o => o.ok);
        if (!oks.length) return bad('stale', `the page shows results before there is any response to this search; first: ${v.repos[0].name} ${v.repos[0].files.map(f => f.name)}`);
        if (last && mine.length) {
            const lastFirst = first.reduce((x, y) => x.req.id > y.req.id ? x : y);
            if (!lastFirst.ok) return bad('error-hidden', `the response was ${lastFirst.how}, the page shows results`);
        }
        let why = '';
        for (const o of oks) {
            why = this.judgeResults(v, o, mine, last);
            if (!why && last) why = this.judgeStats(o);
            if (!why) { this.stat('pages-judged'); return; }
        }
        bad(why.split(':')[0], why);
    }

    // judgeStats: below the form stands what the response says of itself.
    judgeStats(o) {
        const st = o.req.served.info.body.Stats, vals = this.world.page.$$('.stats .val').map(e => e.textContent);
        if (!st || !vals.length) return '';
        const num = n => String(n).replace(/\B(?=(\d{3})+$)/g, ',');
        if (!vals.includes(num(st.Duration) + 'ms server')) return `stats: the response took ${st.Duration} ms, the page says ${vals}`;
        if (!vals.some(v => v.replace(/,/g, '') === st.FilesOpened + ' files')) return `stats: the response is of ${st.FilesOpened} files, the page says ${vals}`;
        return '';
    }

    judgeResults(v, o, mine, last) {
        const a = this.want, body = o.req.served.info.body, left = new Map(Object.entries(body.Results));
        for (const rv of v.repos) {
            const cands = this.plan.repos.filter(r => left.has(r.name) && nameOf(r) === rv.name);
            if (!cands.length) return `repository: ${rv.name} is not in the answer, or shown twice`;
            let why = '';
            for (const r of cands) {
                why = this.judgeRepo(rv, r, left.get(r.name), o, mine, last);
                if (!why) { left.delete(r.name); break; }
            }
            if (why) return why;
        }
        if (left.size) return `repository missing: ${[...left.keys()]}`;
        return '';
    }

    judgeRepo(rv, r, res, o, mine, last) {
        const a = this.want;
        const ver = r.versions[o.req.served.info.vers[r.name]];
        const all = matchRepo(ver, a);
        // how many files must have been shown by now
        let need = res.Matches.length;
        for (const m of mine) {
            if (!m.ok || m === o || m.req.id < o.req.id || !m.req.served.info.body) continue;
            const x = m.req.served.info.body.Results[r.name];
            if (!x || x.Revision !== res.Revision) continue;
            const b = parseInt(m.req.q.rng, 10) || 0;
            if (b <= need) need = Math.max(need, b + x.Matches.length);
        }
        // an error shown and gone again may have hidden the rest
        if (rv.files.length < (last ? need : Math.min(need, res.Matches.length))) return `files missing: ${rv.name}: ${rv.files.length} files are shown, the responses have ${need}`;
        if (rv.files.length > all.length) return `too many files: ${rv.name}: ${rv.files.length} files are shown, ${all.length} match: ${rv.files.map(f => f.name)}`;
        for (let i = 0; i < rv.files.length; i++) {
            const f = rv.files[i], w = all[i];
            if (f.name !== w.Filename) return `file: ${JSON.stringify(f.name)} is shown where ${JSON.stringify(w.Filename)} belongs`;
            if (!this.sameLink(f.href, link(r, w.Filename, null, ver.rev))) return `link of a file: ${JSON.stringify(f.href)}, should be ${JSON.stringify(link(r, w.Filename, null, ver.rev))}`;
            if (f.auto !== !!w.AutoGenerated) return `mark: ${f.name} is ${f.auto ? '' : 'not '}marked as auto-generated`;
            if (!this.toggled && f.open !== !w.AutoGenerated) return `open: ${f.name} is ${f.open ? 'open' : 'closed'}`;
            const lines = new Map();
            for (const m of w.Matches) {
                m.Before.forEach((l, k) => { const n = m.LineNumber - m.Before.length + k; if (!lines.has(n)) lines.set(n, { l, m: false }); });
                m.After.forEach((l, k) => { const n = m.LineNumber + 1 + k; if (!lines.has(n)) lines.set(n, { l, m: false }); });
            }
            for (const m of w.Matches) lines.set(m.LineNumber, { l: m.Line, m: true });
            const want = [...lines].sort((x, y) => x[0] - y[0]);
            const got = f.blocks.flat();
            for (const b of f.blocks) for (let k = 1; k < b.length; k++) if (+b[k].no !== +b[k - 1].no + 1) return `block: in ${f.name} line ${b[k].no} follows line ${b[k - 1].no}`;
            for (let k = 0; k < Math.max(want.length, got.length); k++) {
                const g = got[k], e = want[k];
                if (!g) return `line missing: ${f.name} line ${e[0]}`;
                if (!e || g.no !== String(e[0])) return `line: in ${f.name} line ${g.no} is shown ${e ? 'where line ' + e[0] + ' belongs' : 'at the end'}`;
                if (g.text !== e[1].l) return `text: ${f.name} line ${g.no} is shown as ${JSON.stringify(g.text)}, it is ${JSON.stringify(e[1].l)}`;
                if (!this.sameLink(g.href, link(r, w.Filename, e[0], ver.rev))) return `link of a line: ${JSON.stringify(g.href)}, should be ${JSON.stringify(link(r, w.Filename, e[0], ver.rev))}`;
                const em = e[1].m ? spans(e[1].l, a) : [];
                if (JSON.stringify(g.em) !== JSON.stringify(em)) return `emphasis: in ${f.name} line ${g.no} ${JSON.stringify(g.text)} the parts ${JSON.stringify(g.em)} are emphasised, should be ${JSON.stringify(em)}`;
            }
        }
        if ((rv.files.length < all.length) !== (rv.more.length > 0)) return `more: ${rv.name}: ${rv.files.length} of ${all.length} files are shown, ${rv.more.length} buttons to load the rest`;
        if (rv.more.length && !rv.more[0].includes(String(all.length))) return `more: the button says ${rv.more[0]}, ${all.length} files match`;
        return '';
    }
    sameLink(a, b) { return a === b || canonLink(a || '') === canonLink(b); }

    judgeExcl(last) {
        const page = this.world.page, x = this.xwant;
        this.states.add(hash('x' + page.$$('tr').length + '/' + this.pending().length + '/' + (x && x.repo)));
        if (this.settled && !x) {
            const ok = this.outcomes.some(o => o.req.url === 'api/v1/repos' && o.ok);
            const shown = page.$$('.repo-button').map(b => b.textContent).sort().join();
            if (ok && shown !== this.plan.repos.map(r => r.name).sort().join()) this.violate('excluded-page', 'repos', `the excluded-files page lists ${shown}`);
            return;
        }
        if (!x) return;
        const mine = this.outcomes.filter(o => o.req.page === page && o.req.url === 'api/v1/excludes' && o.req.q.repo === x.repo);
        const rows = page.$$('tbody tr').map(r => r.querySelectorAll('td').map(c => c.textContent));
        const busy = !!page.$('#no-result');
        const known = this.plan.repos.find(r => r.name === x.repo);
        if (!known) return;
        const want = known.excluded.map(f => [f.Filename, f.Reason]);
        const bad = (sig, msg) => this.violate('excluded-page', sig, `${x.repo} selected: ${msg}${this.lastErr ? ' (exception: ' + this.lastErr + ')' : ''}`);
        if (busy) {
            if (last && mine.length && mine.every(o => o.ok)) bad('stuck', 'the list has arrived, the page goes on searching');
            return;
        }
        if (rows.length && !mine.some(o => o.ok)) return bad('stale', `a list is shown before it has arrived: ${JSON.stringify(rows[0])}`);
        if (mine.some(o => o.ok) && JSON.stringify(rows) !== JSON.stringify(want)) return bad('rows', `shown: ${JSON.stringify(rows).slice(0, 300)}, excluded: ${JSON.stringify(want).slice(0, 300)}`);
        if (mine.some(o => o.ok)) this.stat('pages-judged');
    }

    async go() {
        for (const s of this.plan.steps) {
            this.settled = false;
            this.lastErr = '';
            if (!this.world.page && s.op !== 'open' && s.op !== 'xopen') continue;
            await this.step(s);
            this.judge(this.settled);
            if (this.violations.length) break;
        }
        if (this.world.page) this.world.page.closed = true;
        this.stats.steps = this.plan.steps.length;
        this.simTime = this.world.now - 1.6e12;
        this.digest = hash(this.world.log.join('\n') + JSON.stringify(this.violations));
        return this;
    }
}
