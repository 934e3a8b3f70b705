// The check of the page's scripts (C31, C34, C35): workers explore seeds, a run that violates
// the property is minimised and written as a replay file, evidence is written.
//   main.mjs check PROPERTY SEED SECS deep? DIR WORKERS
//   main.mjs replay FILE [TRACE]
//   main.mjs worker ... (internal)
import fs from 'node:fs';
import { fork } from 'node:child_process';
import { fileURLToPath } from 'node:url';
import { loadSources } from './page.mjs';
import { gen, Run } from './run.mjs';

const ASSETS = process.env.HOUND_ASSETS || '/repo/ui/assets';
let PROP = 'C31';
// propertyOf says whose matter a violation is.
function propertyOf(v) {
    if (v.class === 'address' || v.sig === 'form') return 'C35';
    if (v.class === 'page' && /^(link|text|line|block|emphasis|mark|open$|toggle|expand)/.test(v.sig)) return 'C34';
    return v.class === 'page-hang' ? 'C31 C34 C35' : v.sig === 'controls' ? 'C31 C35' : 'C31';
}
const relevant = v => propertyOf(v).split(' ').includes(PROP);
const sig = v => v.class + '|' + v.sig;

async function run(plan, sources, trace) { return await new Run(plan, sources, trace || 0).go(); }

// ---------------------------------------------------------------- worker

async function worker(seed, from, stride, secs, deep) {
    const until = Date.now() + secs * 1000;
    const sources = loadSources(ASSETS);
    let n = 0;
    for (let i = from; Date.now() < until; i += stride) {
        process.send({ at: i });
        const plan = gen(seed, i, deep);
        const r = await run(plan, sources);
        const m = { i, viol: r.violations, stats: r.stats, faults: r.faults, states: [...r.states], sim: r.simTime, digest: r.digest, steps: plan.steps.length };
        if (n++ % 10 === 0 || r.violations.length) m.again = (await run(gen(seed, i, deep), sources)).digest;
        if (i < stride) m.plan = plan;
        process.send(m);
    }
    process.disconnect();
}

// ---------------------------------------------------------------- minimisation

async function minimise(plan, want, sources, until) {
    let best = plan, viol = null;
    const attempt = async p => {
        if (Date.now() > until) return false;
        const r = await run(JSON.parse(JSON.stringify(p)), sources);
        const v = r.violations.find(v => sig(v) === want);
        if (v) { best = p; viol = v; }
        return !!v;
    };
    if (!await attempt(plan)) return { plan, viol: null };
    // drop parts of a list, largest parts first
    const shrink = async (get, set) => {
        for (let size = Math.max(1, get(best).length >> 1); ; size >>= 1) {
            for (let at = 0; at < get(best).length;) {
                const l = get(best), p = JSON.parse(JSON.stringify(best));
                set(p, [...l.slice(0, at), ...l.slice(at + size)]);
                if (!await attempt(p)) at += size;
            }
            if (size <= 1) break;
        }
    };
    for (let round = 0; round < 3 && Date.now() < until; round++) {
        const before = JSON.stringify(best);
        await shrink(p => p.steps, (p, l) => { p.steps = l; });
        await shrink(p => p.repos, (p, l) => { p.repos = l; });
        for (let r = 0; r < best.repos.length; r++) {
            await shrink(p => p.repos[r].versions.slice(1), (p, l) => { p.repos[r].versions = [p.repos[r].versions[0], ...l]; });
            for (let v = 0; v < best.repos[r].versions.length; v++) {
                await shrink(p => p.repos[r].versions[v].files, (p, l) => { p.repos[r].versions[v].files = l; });
                if (best.repos[r].versions[v].files.length > 8) continue;
                for (let f = 0; f < best.repos[r].versions[v].files.length; f++) await shrink(p => p.repos[r].versions[v].files[f].lines, (p, l) => { p.repos[r].versions[v].files[f].lines = l; });
            }
        }
        for (let s = 0; s < best.steps.length; s++) for (const k of Object.keys(best.steps[s])) {
            if (k === 'op' || k === 'q' && best.steps[s].op === 'search' || k === 'k' || k === 'what') continue;
            const p = JSON.parse(JSON.stringify(best));
            delete p.steps[s][k];
            await attempt(p);
        }
        if (JSON.stringify(best) === before) break;
    }
    return { plan: best, viol };
}

// ---------------------------------------------------------------- check

function knownFindings(file) {
    const out = [];
    if (!fs.existsSync(file)) return out;
    for (const l of fs.readFileSync(file, 'utf8').split('\n')) {
        const m = /^known: property=(\S+) class=(\S+) sig=\/(.*)\/ replay=(\S+) -- (.*)$/.exec(l);
        if (m && m[1] === PROP) out.push({ class: m[2], re: new RegExp(m[3]), replay: m[4], what: m[5] });
    }
    return out;
}
const knownOf = (ks, v) => ks.find(k => k.class === v.class && k.re.test(v.sig));

async function check(seed, secs, deep, dir, workers) {
    const t0 = Date.now();
    const minSecs = deep ? 120 : 45;
    fs.mkdirSync(dir + '/evidence', { recursive: true });
    fs.mkdirSync(dir + '/replays', { recursive: true });
    let sources;
    try { sources = loadSources(ASSETS); } catch (e) {
        console.log(String(e.message || e));
        console.log('the scripts of /repo/ui/assets/js do not build: no verdict');
        return 2;
    }
    const ks = knownFindings(dir + '/known_findings.txt');
    let shown = 0;
    for (const k of ks) {
        const r = await run(JSON.parse(fs.readFileSync(dir + '/' + k.replay)).plan, sources);
        if (r.violations.some(v => knownOf([k], v))) { console.log(`KNOWN-FINDING: property=${PROP} ${k.what}`); shown++; }
    }
    const T = { runs: 0, steps: 0, sim: 0, stats: {}, faults: {}, states: new Set(), digests: new Set(), nontriv: new Set(), known: {}, foreign: {}, det: 0, undet: 0, crashes: 0, samples: [] };
    const add = (m, o) => { for (const k in o) m[k] = (m[k] || 0) + o[k]; };
    const hits = [];
    const kids = new Set();
    const stop = () => { for (const k of kids) k.kill('SIGKILL'); };
    const until = t0 + secs * 1000;
    const one = (from, tries) => new Promise(res => {
        const left = (until - Date.now()) / 1000;
        if (left < 0.2 || tries > 20 || hits.length) { res(); return; }
        let last = from;
        const c = fork(fileURLToPath(import.meta.url), ['worker', seed, from, workers, left, deep ? 1 : 0], { stdio: ['ignore', 'ignore', 'pipe', 'ipc'] });
        let err = '';
        c.stderr.on('data', d => { err = (err + d).slice(-3000); });
        kids.add(c);
        const tm = setTimeout(() => c.kill('SIGKILL'), left * 1000 + 60000);
        c.on('message', m => {
            if (m.at !== undefined) { last = m.at; return; }
            T.runs++;
            T.steps += m.steps;
            T.sim += m.sim;
            add(T.stats, m.stats);
            add(T.faults, m.faults);
            for (const s of m.states) if (T.states.size < 4e6) T.states.add(s);
            T.digests.add(m.digest);
            if ((m.stats['pages-judged'] || 0) > 0 && (m.stats.responses || 0) > 0) T.nontriv.add(m.digest);
            if (m.again !== undefined) { if (m.again === m.digest) T.det++; else T.undet++; }
            if (m.plan && T.samples.length < 3) T.samples.push(describe(m.plan));
            for (const v of m.viol) {
                const k = knownOf(ks, v);
                if (k) { T.known[sig(v)] = (T.known[sig(v)] || 0) + 1; continue; }
                if (!relevant(v)) { T.foreign[sig(v)] = (T.foreign[sig(v)] || 0) + 1; continue; }
                hits.push({ i: m.i, v });
            }
            if (hits.length) stop();
        });
        c.on('exit', code => {
            kids.delete(c);
            clearTimeout(tm);
            if (code !== 0 && !hits.length && Date.now() < until) {
                T.crashes++;
                if (T.crashes < 3) console.log(`note: run ${last} brought the simulator down: ${err}`);
                one(last + workers, tries + 1).then(res);
                return;
            }
            if (code === 0 && !hits.length && Date.now() < until - 500) { one(last + workers, tries + 1).then(res); return; }
            res();
        });
    });
    await Promise.all(Array.from({ length: workers }, (_, w) => one(w, 0)));
    const explored = (Date.now() - t0) / 1000;
    let code = 0;
    if (hits.length) {
        hits.sort((a, b) => a.i - b.i);
        const h = hits[0];
        const file = `${dir}/replays/${PROP}-${seed}-${h.i}.json`;
        const m = await minimise(gen(seed, h.i, deep), sig(h.v), sources, Date.now() + minSecs * 1000);
        const v = m.viol || h.v;
        fs.writeFileSync(file, JSON.stringify({ property: PROP, violation: v, plan: m.plan }, null, 1) + '\n');
        console.log(`${PROP}: [${v.class}] [${v.sig}] (run ${h.i} of seed ${seed}) ${v.msg}`);
        console.log(`VIOLATION property=${PROP} replay=${file}`);
        code = 1;
    }
    for (const k of Object.keys(T.foreign).sort()) console.log(`note: ${T.foreign[k]} runs show what is another property's matter: ${k}`);
    if (T.undet) console.log(`note: ${T.undet} runs were not repeatable`);
    if (!T.runs && !code) { console.log('no run ended: no verdict'); code = 3; }
    const ev = {
        property: PROP, tier: deep ? 'thorough' : 'quick', seed, level: 'exploration', wall_s: (Date.now() - t0) / 1000, violations: hits.length,
        assumptions: ['the browser behaves like the document, history and event model of /verif/js/dom.mjs and page.mjs', 'the network library calls success with the parsed JSON, and error otherwise', 'the server answers every search as the reference in /verif/js/run.mjs does'],
        coverage: {
            evaluations: T.runs, distinct_nontrivial: T.nontriv.size,
            rule: 'a case is a plan made from one seed: repositories with their versions and files, and the steps of a user (typing, searching, loading more, going back and forth, reloading, opening and closing files) in one order with the deliveries, losses and failures of responses and the updates of the server; it is non-trivial if at least one response arrived and one full page was compared with the reference, and distinct by the digest of everything that happened',
            samples: T.samples, simulated_runs: T.runs, seeds_per_hour: Math.round(T.runs / explored * 3600), simulated_seconds: T.sim / 1000, steps: T.steps,
            faults_injected: T.faults, counters: T.stats, distinct_schedules: T.digests.size, distinct_states: T.states.size,
            state_measure: 'hash of what the page shows (kind, files per repository, buttons), the number of requests under way and the query, after every step',
            repeated_exactly: T.det, not_repeatable: T.undet, crashes: T.crashes, known_findings_seen: T.known, other_properties_violations: T.foreign, known_findings_shown: shown,
            real_code: 'ui/assets/js/hound.js, excluded_files.js, common.js, signal.js and the React 0.12.2 of the repository, bundled from the working tree',
            stubs: 'document and events, clock and timers, history, network (reqwest, fetch, XMLHttpRequest), merge-anything, the server',
        },
    };
    fs.writeFileSync(`${dir}/evidence/${PROP}.json`, JSON.stringify(ev, null, 1) + '\n');
    const faults = Object.values(T.faults).reduce((a, b) => a + b, 0);
    console.log(`${PROP} ${ev.tier}: ${T.runs} runs (${T.nontriv.size} non-trivial and distinct), ${Math.round(T.sim / 1000)} s simulated, ${T.digests.size} schedules, ${T.states.size} states, ${faults} faults, ${T.det} repeated exactly, ${Math.round(ev.wall_s)} s: exit ${code}`);
    return code;
}

function describe(p) {
    return `${p.repos.map(r => `${r.name} (${r.url}, ${r.versions.length} versions, ${r.versions.map(v => v.files.length)} files)`).join('; ')}: ${p.steps.map(s => Object.entries(s).map(([k, v]) => k === 'op' ? v : `${k}=${JSON.stringify(v)}`).join(' ')).join(' | ')}`.slice(0, 1500);
}

async function replay(file, trace) {
    const rp = JSON.parse(fs.readFileSync(file));
    PROP = rp.property;
    const sources = loadSources(ASSETS);
    const r = await run(rp.plan, sources, trace), again = await run(rp.plan, sources, 0);
    console.log(r.digest === again.digest ? 'two runs were the same' : 'two runs DIFFER');
    for (const v of r.violations) console.log(`  [${v.class}] [${v.sig}] ${v.msg}`);
    if (!r.violations.length) { console.log('no violation'); return 0; }
    console.log(`VIOLATION property=${PROP} replay=${file}`);
    return 1;
}

const [cmd, ...a] = process.argv.slice(2);
if (cmd === 'worker') await worker(+a[0], +a[1], +a[2], +a[3], a[4] === '1');
else if (cmd === 'check') { PROP = a[0]; process.exit(await check(+a[1], +a[2], a[3] === 'deep', a[4], +a[5])); }
else if (cmd === 'replay') process.exit(await replay(a[0], +(a[1] || 0)));
else { console.error('check|replay'); process.exit(2); }
