// deno-lint-ignore-file no-explicit-any
import type { CheckDef } from "../lib/api.ts";
import { check, type Ctl, type Scenario } from "../lib/explore.ts";
import { parseHtml } from "/repo/client/0_html.ts";
import { parseMarkdown } from "/repo/client/0_markdown.ts";
import { MessageManager } from "/repo/client/3_message_manager.ts";
import { InputError } from "/repo/0_errors.ts";

// A formatted text: pieces of text and formatted parts.
type Node = string | { type: string; arg?: any; how: number; kids: Node[] };
const specials = "_*[]()~`>#+-=|{}.!\\";
const urls = ["https://example.org/a?b=c&d=(e)_f*", "http://x.org/\\y", "tg://resolve?domain=a_b", "ton://host/"];
interface Form {
  type: string;
  args: any[];
  /** No formatting inside. */
  leaf?: boolean;
}
const forms: Form[] = [
  { type: "bold", args: [undefined] },
  { type: "italic", args: [undefined] },
  { type: "underline", args: [undefined] },
  { type: "strikethrough", args: [undefined] },
  { type: "spoiler", args: [undefined] },
  { type: "code", args: [undefined], leaf: true },
  { type: "pre", args: ["", "c++"], leaf: true },
  { type: "textLink", args: urls },
  { type: "textMention", args: [1, 5000000001] },
  { type: "customEmoji", args: ["5368324170671202286"] },
  { type: "dateTime", args: [[1700000000, undefined], [1, "dt"]] },
  { type: "blockquote", args: [undefined, true] },
];
const pieces = ["a", "é", "😀", "b<c>&d\"e'", specials, " x\ny ", "&amp;", "👨‍👩‍👧", "\\", "```", "__"];

// --- rendering --------------------------------------------------------------------------------------------------
const named: Record<string, string> = { "<": "&lt;", ">": "&gt;", "&": "&amp;", '"': "&quot;" };
function htmlText(s: string, how: number) {
  return [...s].map((c) => {
    const p = c.codePointAt(0)!;
    if (how === 1 && c !== "\n") return `&#${p};`;
    if (how === 2 && c !== "\n") return `&#x${p.toString(16)};`;
    if (how === 3 && c !== "\n") return `&#x${p.toString(16).toUpperCase()};`;
    return named[c] ?? c;
  }).join("");
}
const htmlAttribute = (s: string, quote: string) => [...s].map((c) => named[c] ?? (c === quote ? `&#${c.charCodeAt(0)};` : c)).join("");
const tags: Record<string, string[]> = { bold: ["b", "strong", "B"], italic: ["i", "em"], underline: ["u", "ins"], strikethrough: ["s", "strike", "del"], code: ["code"] };
function html(n: Node, how: number): string {
  if (typeof n === "string") return htmlText(n, how);
  const inner = n.kids.map((k) => html(k, how)).join("");
  const q = n.how % 2 ? "'" : '"', sp = n.how % 2 ? " " : "";
  const close = (t: string) => n.how % 3 === 1 ? "</>" : n.how % 3 === 2 ? `</${t} >` : `</${t}>`;
  switch (n.type) {
    case "spoiler":
      return n.how % 2 ? `<span class=${q}tg-spoiler${q}>${inner}${close("span")}` : `<tg-spoiler>${inner}${close("tg-spoiler")}`;
    case "pre":
      if (!n.arg) return `<pre${sp}>${inner}${close("pre")}`;
      return n.how % 2 ? `<code class=${q}language-${n.arg}${q}><pre>${inner}</pre>${close("code")}` : `<pre><code class=${q}language-${n.arg}${q}>${inner}</code>${close("pre")}`;
    case "textLink":
      return `<a ${sp}href${sp}=${sp}${q}${htmlAttribute(n.arg, q)}${q}${sp}>${inner}${close("a")}`;
    case "textMention":
      return `<a href=${q}tg://user?id=${n.arg}${q}>${inner}${close("a")}`;
    case "customEmoji":
      return `<tg-emoji emoji-id=${q}${n.arg}${q}>${inner}${close("tg-emoji")}`;
    case "dateTime":
      return `<a href=${q}tg://time?unix=${n.arg[0]}${n.arg[1] ? `&amp;format=${n.arg[1]}` : ""}${q}>${inner}${close("a")}`;
    case "blockquote":
      return `<blockquote${n.arg ? " expandable" : ""}>${inner}${close("blockquote")}`;
    default: {
      const t = tags[n.type][n.how % tags[n.type].length];
      return `<${t}${sp}>${inner}${close(t)}`;
    }
  }
}
const esc = (s: string, set: string) => [...s].map((c) => set.includes(c) ? `\\${c}` : c).join("");
function markdown(n: Node, open: string[] = []): string {
  if (typeof n === "string") return esc(n, specials);
  const inside = [...open, n.type];
  const inner = n.kids.map((k) => markdown(k, inside)).join("");
  // an empty entity keeps underscores apart
  const apart = (open: string[]) => !open.includes("bold") ? "**" : !open.includes("strikethrough") ? "~~" : "||||";
  const sep = apart(inside), out = apart(open);
  const raw = () => esc(n.kids.join(""), "`\\");
  const url = (u: string) => `(${esc(u, ")\\")})`;
  switch (n.type) {
    case "bold":
      return `*${inner}*`;
    case "italic":
      return `${out}_${sep}${inner}${sep}_${out}`;
    case "underline":
      return `${out}__${sep}${inner}${sep}__${out}`;
    case "strikethrough":
      return `~${inner}~`;
    case "spoiler":
      return `||${inner}||`;
    case "code":
      return `\`${raw()}\``;
    case "pre":
      return `\`\`\`${n.arg}${n.how % 2 ? "\n" : "\r\n"}${raw()}\`\`\``;
    case "textLink":
      return `[${inner}]${url(n.arg)}`;
    case "textMention":
      return `[${inner}](tg://user?id=${n.arg})`;
    case "customEmoji":
      return `![${inner}](tg://emoji?id=${n.arg})`;
    case "dateTime":
      return `![${inner}](tg://time?unix=${n.arg[0]}${n.arg[1] ? `&format=${n.arg[1]}` : ""})`;
  }
  throw new Error(n.type);
}

// --- what it should be ------------------------------------------------------------------------------------------
function plain(nodes: Node[], entities: any[], at = 0): string {
  let text = "";
  for (const n of nodes) {
    if (typeof n === "string") {
      text += n;
      continue;
    }
    const offset = at + text.length;
    const inner = plain(n.kids, entities, offset);
    text += inner;
    if (!inner.length) continue;
    const e: any = { type: n.type, offset, length: inner.length };
    if (n.type === "pre") e.language = n.arg;
    if (n.type === "textLink") e.url = n.arg;
    if (n.type === "textMention") e.userId = n.arg;
    if (n.type === "customEmoji") e.customEmojiId = n.arg;
    if (n.type === "dateTime") [e.dateTime, e.format] = n.arg;
    if (n.type === "blockquote" && n.arg) e.collapsible = true;
    entities.push(e);
  }
  return text;
}
const norm = (u: string) => new URL(u).href;
function canonical(entities: any[]) {
  return entities.map((e) => {
    const o: any = {};
    for (const k of Object.keys(e).sort()) if (e[k] !== undefined) o[k] = k === "url" ? norm(e[k]) : e[k];
    return JSON.stringify(o);
  }).sort().join();
}
function checkOrder(entities: any[], what: () => string) {
  for (let i = 1; i < entities.length; i++) {
    const a = entities[i - 1], b = entities[i];
    check(a.offset < b.offset || a.offset === b.offset && a.length >= b.length, () => `${what()}: the entities are not in order`, "the entities are not in order");
  }
}

function compare(source: string, nodes: Node[], parse: (s: string) => [string, any[]], how: string) {
  const entities: any[] = [];
  const text = plain(nodes, entities);
  let got: [string, any[]];
  try {
    got = parse(source);
  } catch (err) {
    check(false, () => `${how} ${JSON.stringify(source)} fails: ${err}`, `${how} is refused`);
    return;
  }
  check(got[0] === text, () => `the text of ${how} ${JSON.stringify(source)} is ${JSON.stringify(got[0])}`, `another text from ${how}`);
  check(canonical(got[1]) === canonical(entities), () => `the entities of ${how} ${JSON.stringify(source)} are ${canonical(got[1])} instead of ${canonical(entities)}`, `other entities from ${how}`);
  checkOrder(got[1], () => `${how} ${JSON.stringify(source)}`);
}
/** The same with what the message manager makes of it: nothing at the end that is only space. */
function compareWhole(source: string, nodes: Node[], mode: "HTML" | "Markdown") {
  const entities: any[] = [];
  const text = plain(nodes, entities);
  const trimmed = text.trimEnd();
  const want = entities.map((e) => ({ ...e, length: Math.min(e.length, trimmed.length - e.offset) })).filter((e) => e.length > 0);
  if (!trimmed.length) return;
  const mine = [{ type: "bold" as const, offset: 0, length: 1 }];
  const [t, es] = MessageManager.parseText(source, mine, mode);
  check(t === trimmed, () => `the message ${mode} ${JSON.stringify(source)} is ${JSON.stringify(t)}`, `another message from ${mode}`);
  check(canonical(es) === canonical([...mine, ...want]), () => `the message ${mode} ${JSON.stringify(source)} has ${canonical(es)}`, `other entities in a message from ${mode}`);
}

/** Formatted texts: a list of up to `width` parts at each level, up to `depth` levels of formatting. */
function texts(mode: "HTML" | "Markdown", width: number, depth: number, budget: number): Scenario {
  const usable = forms.filter((f) => mode === "HTML" || f.type !== "blockquote");
  return {
    name: `${mode}, ${width} parts, ${depth} levels, ${budget} deviations`,
    budget,
    shard: true,
    async run(ctl: Ctl) {
      const level = (d: number, inside: string[], leaf: boolean): Node[] => {
        const n = [1, 2, 3, 4].slice(0, width).concat(0)[ctl.choose(width + 1, "parts", 1)];
        const out: Node[] = [];
        for (let i = 0; i < n; i++) {
          const allowed = leaf || d === 0 ? [] : usable.filter((f) => !inside.includes(f.type) && !(f.type === "textMention" || f.type === "dateTime" || f.type === "customEmoji" || f.type === "textLink") || !inside.some((x) => ["textMention", "dateTime", "customEmoji", "textLink"].includes(x)) && !inside.includes(f.type));
          const k = ctl.free(allowed.length + 1, "part");
          if (k === 0) out.push(ctl.pick(pieces, "piece", 1));
          else {
            const f = allowed[k - 1];
            const arg = ctl.pick(f.args, "argument", 1);
            const how = ctl.pick([0, 1, 2, 3, 4, 5], "how", 1);
            out.push({ type: f.type, arg, how, kids: level(d - 1, [...inside, f.type], !!f.leaf) });
          }
        }
        return out;
      };
      // text around, so that nothing is trimmed
      const around = ctl.free(2, "around") === 1;
      const nodes = level(depth, [], false);
      if (around) nodes.unshift("x"), nodes.push("y");
      if (mode === "HTML") {
        const first = plain(nodes, []);
        for (const how of [0, 1, 2, 3]) {
          const source = nodes.map((n) => html(n, how)).join("");
          if (source.trim() !== source) continue;
          ctl.count("sources");
          compare(source, nodes, (s) => parseHtml(s), "HTML");
          if (first.length) compareWhole(source, nodes, "HTML");
          compare(`${"\n "}${source}\n`, nodes, (s) => parseHtml(s), "HTML");
          if (!/tg:\/\/time|tg-emoji/.test(source)) compare(source, nodes, (s) => parseHtml(s, true), "secret HTML");
        }
      } else {
        const source = nodes.map((n) => markdown(n)).join("");
        ctl.count("sources");
        compare(source, nodes, (s) => parseMarkdown(s), "Markdown");
        if (plain(nodes, []).length) compareWhole(source, nodes, "Markdown");
        if (!/tg:\/\/time|tg:\/\/emoji/.test(source)) compare(source, nodes, (s) => parseMarkdown(s, true), "secret Markdown");
      }
      const shown = JSON.stringify(nodes);
      ctl.step(shown);
      ctl.outcome(shown);
    },
  };
}

/** Any text at all is taken or refused with an InputError, and entities lie within the text. */
function any(mode: "HTML" | "Markdown", alphabet: string[], length: number, part: number): Scenario {
  return {
    name: `any ${mode} of ${length} of ${alphabet.join(" ")}, part ${part + 1}`.replaceAll("\n", "\\n"),
    async run(ctl: Ctl) {
      const parse = mode === "HTML" ? parseHtml : parseMarkdown;
      let count = 0;
      const go = (source: string, left: number) => {
        if (left === 0) {
          count++;
          let r;
          try {
            r = parse(source);
          } catch (err) {
            check(err instanceof InputError, () => `${mode} ${JSON.stringify(source)} fails with ${err}`, `${mode} fails with ${(err as Error)?.name}`);
            return;
          }
          const [text, entities] = r;
          for (const e of entities) check(Number.isInteger(e.offset) && e.offset >= 0 && e.length > 0 && e.offset + e.length <= text.length, () => `${mode} ${JSON.stringify(source)} has ${JSON.stringify(e)} in ${JSON.stringify(text)}`, "an entity outside of the text");
          checkOrder(entities, () => source);
          return;
        }
        for (const a of alphabet) go(source + a, left - 1);
      };
      for (let n = 1; n <= length; n++) {
        for (const [i, a] of alphabet.entries()) if (i % 8 === part) go(a, n - 1);
      }
      ctl.count("texts", count);
      ctl.step("all");
      ctl.outcome(`${part}`);
    },
  };
}

const def: CheckDef = {
  id: "M01",
  level: "model_checking",
  rule: "all formatted texts of the listed pieces and formats up to the stated number of parts and levels within the deviation budget, written in HTML and Markdown in the listed ways; all texts of the listed symbols up to the stated length",
  assumptions: [
    "Not specified: a format within itself, links within links, formats within code, tags that are not closed, > within attributes, what becomes of incorrect links.",
  ],
  exhaustive: true,
  scenarios(tier) {
    const t = tier === "thorough";
    const out: Scenario[] = [];
    for (const mode of ["HTML", "Markdown"] as const) {
      out.push(texts(mode, 2, 2, t ? 2 : 1));
      out.push(texts(mode, 1, 3, t ? 2 : 1));
      if (t) out.push(texts(mode, 3, 2, 1), texts(mode, 2, 3, 1));
    }
    for (let i = 0; i < 8; i++) {
      out.push(any("HTML", ["<", ">", "/", "a", "b", " ", "=", '"', "&", "#", ";", "x"], t ? 6 : 4, i));
      out.push(any("HTML", ["<b>", "</b>", "</>", "<pre>", "<code class=language-x>", "</code>", "<a href=a.b>", "<", ">", "😀", " ", "&lt"], t ? 6 : 4, i));
      out.push(any("Markdown", ["*", "_", "`", "[", "]", "(", ")", "!", "|", "~", "\\", "a", "\n", "😀"], t ? 6 : 4, i));
      out.push(any("Markdown", ["*", "__", "```", "[", "](tg://user?id=1)", "](a.b)", "![", "](tg://emoji?id=1)", "||", "\\", "é", "\n"], t ? 6 : 4, i));
    }
    return out;
  },
};
export default def;
