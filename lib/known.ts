// known_findings.txt: one finding per line,
//   known: property=<id> key=<json string> <what fails>
//   fixed: property=<id> <commit> <what failed>      (suppresses nothing)
import type { Found } from "./explore.ts";
export interface Known {
  property: string;
  key: string;
  text: string;
}
export function loadKnown(id: string): Known[] {
  let text: string;
  try {
    text = Deno.readTextFileSync(new URL("../known_findings.txt", import.meta.url));
  } catch {
    return [];
  }
  const list: Known[] = [];
  for (const line of text.split("\n")) {
    const m = /^known: property=(\S+) key=("(?:[^"\\]|\\.)*") (.*)$/.exec(line);
    if (m && m[1] === id) list.push({ property: m[1], key: JSON.parse(m[2]), text: m[3] });
  }
  return list;
}
export function isKnown(known: Known[], f: Found): boolean {
  return known.some((k) => k.key === f.key);
}
