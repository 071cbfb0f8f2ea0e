// deno-lint-ignore-file no-explicit-any
import type { CheckDef } from "../lib/api.ts";
import { check, type Ctl, type Scenario } from "../lib/explore.ts";
import { compareKeys, Disk, isPrefix } from "../lib/storage.ts";
import { installBrowser } from "../lib/browser_storage.ts";
import type { Storage, StorageKeyPart } from "/repo/storage/0_storage.ts";

installBrowser();
const { StorageMemory } = await import("/repo/storage/2_storage_memory.ts");
const { StorageLocalStorage } = await import("/repo/storage/2_storage_local_storage.ts");
const { StorageSessionStorage } = await import("/repo/storage/2_storage_session_storage.ts");
const { StorageIndexedDB } = await import("/repo/storage/2_storage_indexed_db.ts");
const { StorageDenoKV } = await import("/repo/storage/1_storage_deno_kv.ts");
const { StorageLocalStorage: NodeLocalStorage } = await import("/repo/storage/2_storage_local_storage.node.ts");

type Key = readonly StorageKeyPart[];
type Handle = [Storage, Storage[]];

/** One backend, opened afresh. */
interface Backend {
  name: string;
  root(): Storage;
  /** reopening gives the same content */
  persistent: boolean;
  /** the storage is shared with one of another name */
  neighbour?: (suffix: string) => Storage;
}
let scratch = 0;
function backend(name: string): { b: Backend; end: () => void } {
  const id = `${scratch++}`;
  switch (name) {
    case "memory": {
      const m = new StorageMemory();
      return { b: { name, root: () => m, persistent: false }, end() {} };
    }
    case "local":
      installBrowser();
      return { b: { name, root: () => new StorageLocalStorage("main"), persistent: true, neighbour: (s) => new StorageLocalStorage("main" + s) }, end() {} };
    case "session":
      installBrowser();
      return { b: { name, root: () => new StorageSessionStorage("main"), persistent: true, neighbour: (s) => new StorageSessionStorage("main" + s) }, end() {} };
    case "node":
      installBrowser();
      return { b: { name, root: () => new NodeLocalStorage(`/nonexistent/${id}`), persistent: true }, end() {} };
    case "idb":
      installBrowser();
      return { b: { name, root: () => new StorageIndexedDB(id), persistent: true, neighbour: (s) => new StorageIndexedDB(id + s) }, end() {} };
    default: {
      const dir = Deno.makeTempDirSync({ dir: "/dev/shm", prefix: "s01-" });
      return { b: { name, root: () => new StorageDenoKV(`${dir}/kv`), persistent: true }, end: () => Deno.removeSync(dir, { recursive: true }) };
    }
  }
}
const NAMES = ["memory", "local", "session", "node", "idb", "denokv"];

/** A storage and its branches, each with the map it should be. */
class Sut {
  places: { name: string; path: string[]; neighbour?: string; s: Storage; d: Disk }[] = [];
  constructor(public b: Backend) {}
  async open(paths: (string[] | string)[]) {
    for (const p of paths) {
      const isNeighbour = typeof p === "string";
      if (isNeighbour && !this.b.neighbour) continue;
      const s = await this.handle(p);
      this.places.push({ name: isNeighbour ? `another storage +${p}` : p.length ? `branch ${p.join("/")}` : "root", path: isNeighbour ? [] : p, neighbour: isNeighbour ? p : undefined, s, d: new Disk() });
    }
  }
  async handle(p: string[] | string) {
    let s = typeof p === "string" ? this.b.neighbour!(p) : this.b.root();
    await s.initialize();
    if (typeof p !== "string") {
      for (const id of p) {
        const parent = s;
        s = s.branch(id);
        await s.initialize();
        if (this.b.persistent) await parent.close();
      }
    }
    return s;
  }
  async reopen() {
    for (const p of this.places) {
      if (!this.b.persistent) continue;
      await p.s.close();
      p.s = await this.handle(p.neighbour ?? p.path);
    }
  }
  async close() {
    for (const p of this.places) await p.s.close();
  }
}
const show = (v: unknown): string => {
  if (typeof v === "bigint") return v + "n";
  if (v instanceof Date) return `Date(${v.getTime()})`;
  if (v instanceof Uint8Array) return `bytes(${[...v]})`;
  if (Array.isArray(v)) return `[${v.map(show).join(", ")}]`;
  if (v && typeof v === "object") return `{${Object.entries(v).map(([k, x]) => `${JSON.stringify(k)}: ${show(x)}`).join(", ")}}`;
  if (typeof v === "string") return JSON.stringify(v);
  return Object.is(v, -0) ? "-0" : String(v);
};
async function list(s: Storage, filter: any, params?: any) {
  const out: [Key, unknown][] = [];
  for await (const [k, v] of await s.getMany(filter, params)) out.push([k, v]);
  return out;
}
async function same(ctl: Ctl, sut: Sut, what: string, got: () => unknown, want: unknown) {
  let g: unknown;
  try {
    g = await got();
  } catch (err) {
    g = `threw ${err}`;
  }
  ctl.count("queries");
  if (show(g) !== show(want)) {
    ctl.note(`${sut.b.name}: ${what} gives ${show(g).slice(0, 400)}, expected ${show(want).slice(0, 400)}`);
    check(false, `${sut.b.name}: ${what} gives ${show(g).slice(0, 300)} instead of ${show(want).slice(0, 300)}`, `${sut.b.name}: ${what.split(" of ")[0]} differs`);
  }
}
interface Group {
  name: string;
  /** [place, key, value] */
  universe: [number, Key, unknown][];
  places: (string[] | string)[];
  prefixes: Key[];
  ranges: [Key, Key][];
  /** content is limited to this many entries */
  max: number;
}
const N = (...v: StorageKeyPart[]): Key => v;
function groups(tier: string): Group[] {
  const max = tier === "thorough" ? 4 : 3;
  const numbers = [-1001234567890, -10, -9, 0, 1, 2, 10, 2 ** 40];
  const bigints = [-(2n ** 63n), -10n, -9n, -1n, 0n, 1n, 9n, 10n, 2n ** 62n];
  const strings = ["", "a", "ab", "b", "2", "61", "__S2", "a\n", "1\nb", "\u{1F600}"];
  const pairs = (ns: string, l: StorageKeyPart[]): [Key, Key][] => l.flatMap((a, i) => l.slice(i).map((b): [Key, Key] => [N(ns, a), N(ns, b)]));
  const one = [[]] as string[][];
  return [
    { name: "numbers", universe: numbers.map((x, i) => [0, N("n", x), i]), places: one, prefixes: [[], N("n"), ...numbers.map((x) => N("n", x)), N("m")], ranges: pairs("n", [-Infinity, -11, ...numbers, 3, Infinity].sort((a, b) => a - b)), max },
    { name: "bigints", universe: bigints.map((x, i) => [0, N("b", x), i]), places: one, prefixes: [[], N("b"), ...bigints.map((x) => N("b", x))], ranges: pairs("b", [...bigints, 5n, 2n ** 63n].sort((a, b) => a < b ? -1 : 1)), max },
    { name: "strings", universe: strings.map((x, i) => [0, N("s", x), i]), places: one, prefixes: [[], N("s"), ...strings.map((x) => N("s", x))], ranges: pairs("s", [...strings, "aa"].sort()), max },
    {
      name: "names that begin alike",
      universe: ["a", "ab", "a1", "a\n", "6", "61\n1", ""].flatMap((ns, i): [number, Key, unknown][] => [[0, N(ns), i], [0, N(ns, 1), i + 100]]),
      places: one,
      prefixes: [[], ...["a", "ab", "a1", "a\n", "6", "61\n1", ""].flatMap((ns) => [N(ns), N(ns, 1)])],
      ranges: [[N("a"), N("ab")], [N("a", 0), N("a", 2)], [N("a", 1), N("a", 1)], [N("a"), N("a", 1)]],
      max,
    },
    {
      name: "levels",
      universe: [N("l"), N("l", 1), N("l", 1, 1n), N("l", 1, 1n, "x"), N("l", 1, 2n), N("l", 1, 10n), N("l", 2), N("l", 2, 1n), N("l", 10, 1n)].map((k, i) => [0, k, i + 1]),
      places: one,
      prefixes: [[], N("l"), N("l", 1), N("l", 1, 1n), N("l", 2), N("l", 1, 1n, "x"), N("l", 3), N("l", 1, 3n)],
      ranges: [[N("l", 1), N("l", 2)], [N("l", 1, 1n), N("l", 1, 2n)], [N("l", 1, 1n), N("l", 1, 1n)], [N("l", 0), N("l", Infinity)], [N("l", 2), N("l", 10, 1n)], [N("l"), N("l", 1)], [N("l", 1, 0n), N("l", 1, 10n)]],
      max,
    },
    {
      name: "keys that print alike",
      universe: [N("p", 1), N("p", "1"), N("p", 1n), N("p", -1), N("p", "-1"), N("p", -1n), N("p", "11"), N("p", 11), N("p1"), N("p", "1", "1"), N("p", "11\n1")].map((k, i) => [0, k, i]),
      places: one,
      prefixes: [N("p", 1), N("p", "1"), N("p", 1n), N("p", "-1"), N("p1"), N("p", "11\n1")],
      ranges: [],
      max,
    },
    {
      name: "branches",
      universe: [0, 1, 2, 3, 4, 5, 6].flatMap((p): [number, Key, unknown][] => [[p, N("k", 1), `${p} k`], [p, N("l", 1n), `${p} l`]]),
      places: [[], ["2"], ["2_media"], ["2", "x"], ["22"], "2", "6"],
      prefixes: [N("k"), N("k", 1), N("l"), N("l", 1n)],
      ranges: [[N("k", 0), N("k", 5)], [N("l", 0n), N("l", 5n)]],
      max,
    },
    {
      name: "contents of branches",
      universe: [0, 1, 2, 3, 4].flatMap((p): [number, Key, unknown][] => [[p, N("k", 1), `${p} k`], [p, N(), `${p} l`]]),
      places: [["2"], ["2_media"], ["2", "x"], ["22"], ["2", "S__x"]],
      prefixes: [[], N("k")],
      ranges: [],
      max,
    },
  ];
}
function queries(g: Group) {
  const params = [undefined, { reverse: true }, { limit: 1 }, { limit: 2, reverse: true }, { limit: 1, reverse: true }, { limit: 2 }];
  return [...g.prefixes.map((prefix) => ({ prefix })), ...g.ranges.map(([start, end]) => ({ start, end }))].flatMap((f) => params.map((p) => [f, p] as const));
}
function expected(d: Disk, f: any, p: any) {
  let l = d.entries.filter(([k]) => "prefix" in f ? isPrefix(f.prefix, k) : compareKeys(k, f.start) >= 0 && compareKeys(k, f.end) <= 0);
  if (p?.reverse) l = l.slice().reverse();
  if (p?.limit !== undefined) l = l.slice(0, p.limit);
  return l;
}
function contents(name: string, g: Group): Scenario {
  return {
    name: `${name}: ${g.name}`,
    async run(ctl: Ctl) {
      // the set of entries: increasing indexes
      const chosen: number[] = [];
      let from = 0;
      while (chosen.length < g.max) {
        const k = ctl.free(g.universe.length - from + 1, "entry");
        if (k === 0) break;
        chosen.push(from + k - 1);
        from += k;
      }
      const { b, end } = backend(name);
      const sut = new Sut(b);
      try {
        await sut.open(g.places);
        // the last entry is written first
        for (const i of chosen.toReversed()) {
          const [p, key, value] = g.universe[i];
          const place = sut.places[p];
          if (!place) return;
          ctl.step(`${place.name}: set ${show(key)}`);
          await place.s.set(key, value);
          place.d.set(key, value);
        }
        ctl.state(chosen.join());
        for (const place of sut.places) {
          for (const [, key] of g.universe) await same(ctl, sut, `get of ${show(key)} in ${place.name}`, () => place.s.get(key), place.d.get(key));
          for (const [f, p] of queries(g)) {
            // whether a prefix covers the very key is not defined
            if ("prefix" in f && place.d.get(f.prefix) !== null) continue;
            await same(ctl, sut, `getMany of ${show(f)} ${show(p ?? {})} in ${place.name}`, () => list(place.s, f, p), expected(place.d, f, p));
          }
        }
      } finally {
        await sut.close();
        end();
      }
    },
  };
}
const VALUES: unknown[] = [1, "x", 7n, true, false, 0, "", new Date(86400000), new Uint8Array([0, 255, 6, 10]), [], [1, ["2", 3n], { a: new Date(5) }], { a: { b: [new Uint8Array([1])] }, "c\n": "" }, -1.5, 1e21, 2 ** 53 - 1, -(2n ** 70n), new Uint8Array(), [[], "", [[]]], {}, "6\n1", [new Date(-1), false], "\u{1F600}\0"];
/** Sequences of operations. */
function histories(name: string, depth: number, paths: string[][]): Scenario {
  return {
    name: `${name}: histories${paths.length > 1 ? " with branches" : ""}`,
    async run(ctl: Ctl) {
      const { b, end } = backend(name);
      const sut = new Sut(b);
      const keys: [number, Key][] = paths.length > 1 ? [[0, N("k", 1)], [1, N("k", 1)], [2, N("k", 1)]] : [[0, N("k", 1)], [0, N("k", "1")], [0, N("k", 1n)]];
      try {
        await sut.open(paths);
        for (let i = 0; i < depth; i++) {
          const n = ctl.free(keys.length * 4 + 2, "operation");
          if (n === 0) break;
          if (n === 1) {
            ctl.step("reopen");
            await sut.reopen();
          } else {
            const [p, key] = keys[(n - 2) >> 2];
            const place = sut.places[p];
            const op = (n - 2) & 3;
            const label = `${place.name}: ${["set 5", "set 0", "delete", "incr"][op]} ${show(key)}`;
            ctl.step(label);
            if (op === 3) {
              await place.s.incr(key, -2);
              place.d.set(key, ((place.d.get(key) as number) ?? 0) - 2);
            } else {
              const v = [5, 0, null][op];
              await place.s.set(key, v);
              place.d.set(key, v);
            }
          }
          for (const place of sut.places) {
            for (const [, key] of keys) await same(ctl, sut, `get of ${show(key)} in ${place.name}`, () => place.s.get(key), place.d.get(key));
            await same(ctl, sut, `getMany of k in ${place.name}`, async () => (await list(place.s, { prefix: ["k"] })).map(([k, v]) => [show(k), v]).sort(), place.d.entries.map(([k, v]) => [show(k), v]).sort());
          }
        }
        ctl.state(sut.places.map((p) => show(p.d.entries)).join());
      } finally {
        await sut.close();
        end();
      }
    },
  };
}
function values(name: string): Scenario {
  return {
    name: `${name}: values`,
    async run(ctl: Ctl) {
      const { b, end } = backend(name);
      const sut = new Sut(b);
      const v = VALUES[ctl.free(VALUES.length, "value")], before = ctl.free(2, "before");
      try {
        await sut.open([[], ["2"]]);
        for (const place of sut.places) {
          if (before) await place.s.set(["v", 1], { old: 1 });
          ctl.step(`${place.name}: set ${show(v)}`);
          await place.s.set(["v", 1], v);
        }
        await sut.reopen();
        for (const place of sut.places) {
          await same(ctl, sut, `get of ${show(v)} in ${place.name}`, () => place.s.get(["v", 1]), v);
          await same(ctl, sut, `getMany of ${show(v)} in ${place.name}`, () => list(place.s, { prefix: ["v"] }), [[["v", 1], v]]);
        }
        ctl.state(show(v));
      } finally {
        await sut.close();
        end();
      }
    },
  };
}
/** Increments that are started together all count. */
function increments(name: string): Scenario {
  return {
    name: `${name}: increments at the same time`,
    async run(ctl: Ctl) {
      const { b, end } = backend(name);
      const sut = new Sut(b);
      try {
        await sut.open([[], ["2"]]);
        const totals = new Map<string, number>();
        const running: unknown[] = [];
        const n = 2 + ctl.free(3, "how many");
        for (let i = 0; i < n; i++) {
          const place = sut.places[ctl.free(2, "place")];
          const k = ["a", "b"][ctl.free(2, "key")];
          const by = 1 << (2 * i);
          ctl.step(`${place.name}: incr ${k} by ${by}`);
          totals.set(place.name + k, (totals.get(place.name + k) ?? 0) + by);
          running.push(place.s.incr([k], by));
        }
        await Promise.all(running);
        for (const place of sut.places) {
          for (const k of ["a", "b"]) await same(ctl, sut, `get of ${k} in ${place.name}`, () => place.s.get([k]), totals.get(place.name + k) ?? null);
        }
        ctl.state([...totals].join());
      } finally {
        await sut.close();
        end();
      }
    },
  };
}
/** Deleting while listing, as the client does to clear storages, deletes everything listed and nothing else. */
function sweep(name: string): Scenario {
  return {
    name: `${name}: deletion while listing`,
    async run(ctl: Ctl) {
      const { b, end } = backend(name);
      const sut = new Sut(b);
      try {
        await sut.open([[], ["2"], ["2_media"]]);
        const set = ctl.free(16, "entries");
        const where = ctl.free(2, "where");
        for (const place of sut.places) {
          for (let i = 0; i < 4; i++) {
            if (!(set >> i & 1)) continue;
            const key = [N("x", 1), N("x", 2), N("x", 10n), N("xy", 1)][i];
            await place.s.set(key, i);
            place.d.set(key, i);
          }
        }
        const place = sut.places[where];
        ctl.step(`delete x in ${place.name}`);
        for await (const [k] of await place.s.getMany({ prefix: ["x"] })) {
          await place.s.set(k, null);
          place.d.set(k, null);
        }
        for (const p of sut.places) {
          for (const key of [N("x", 1), N("x", 2), N("x", 10n), N("xy", 1)]) {
            await same(ctl, sut, `get of ${show(key)} in ${p.name} after a deletion`, () => p.s.get(key), p === place && key[0] === "x" ? null : p.d.get(key));
          }
        }
        ctl.state(`${set} ${where}`);
      } finally {
        await sut.close();
        end();
      }
    },
  };
}

export default {
  id: "S01",
  level: "model_checking",
  rule: "For each storage: every set of up to three (thorough: four) entries out of universes of keys that are alike (numbers, big integers of both signs and lengths, strings that begin alike or look like encodings, levels, same text in other types, branches and neighbouring storages), with every lookup, prefix and range query, limit and direction on each; every sequence of up to three (thorough: four) operations over three keys with reopening; 22 kinds of values; up to four increments at the same time; deletion while listing. The oracle is an ordered map per branch. Every query that is compared is a case.",
  assumptions: ["Web Storage, node-localstorage and IndexedDB are in-memory implementations of their specifications; Deno KV is the real one, on a scratch file."],
  exhaustive: true,
  hangSeconds: 20,
  scenarios(tier) {
    const out: Scenario[] = [];
    const gs = groups(tier);
    for (const n of NAMES) {
      for (const g of gs) out.push({ ...contents(n, n === "denokv" && tier === "quick" ? { ...g, max: 2 } : g), shard: n === "denokv" || n === "idb" });
      out.push({ ...histories(n, tier === "thorough" ? 4 : n === "denokv" ? 2 : 3, [[]]), shard: true }, { ...histories(n, tier === "thorough" ? 4 : n === "denokv" ? 2 : 3, [[], ["2"], ["2_media"]]), shard: true }, values(n), increments(n), sweep(n));
    }
    return out;
  },
} satisfies CheckDef;
