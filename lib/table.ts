// Tables of what calls mean.
// deno-lint-ignore-file no-explicit-any
import { check } from "./explore.ts";
import { ALICE, CHANNEL, type Exp, GROUP, inputChannel, type Opt, PASSWORD, type Spec } from "./calls.ts";

export const o = (key: string, v: any, set?: (x: Exp) => void, more: Partial<Opt> = {}): Opt => ({ key, v, set, ...more });
export const arg = (key: string, v: any, set?: (x: Exp) => void): Opt => ({ key, v, set, arg: true });
export const put = (...fields: any[]) => (x: Exp) => void Object.assign(x.req, ...fields);
export const bad = (x: Exp) => void (x.invalid = true);
export const flags = (list: [string, string][], where: (x: Exp) => any = (x) => x.req): Opt[] => list.flatMap(([k, f]) => [o(k, true, (x) => void (where(x)[f] = true)), o(k, false)]);
export const both = [false, true];

export type Req = (x: Exp) => any;
/** Only for users. */
export const U = (f: Req): Req => (x) => (x.bot && (x.invalid = true), f(x));
/** Only for bots. */
export const B = (f: Req): Req => (x) => (x.bot || (x.invalid = true), f(x));
/** Only in supergroups and channels. */
export const C = (f: Req): Req => (x) => (x.chat === CHANNEL || (x.invalid = true), f(x));
/** By the kind of the chat. */
export const K = (inUser: any, inGroup: any, inChannel: any): Req => (x) => {
  const v = x.chat === CHANNEL ? inChannel : x.chat === GROUP ? inGroup : inUser;
  if (!v) x.invalid = true;
  return { ...v };
};
export const peer = (more: any): Req => (x) => ({ ...more, peer: x.chat.input });
export const inChannel = (more: any): Req => C(() => ({ ...more, channel: inputChannel(CHANNEL) }));
export const nothing = (list: any[] = []) => ({ _: "updates", updates: list, users: [], chats: [], date: 1, seq: 0 });
export const yes = () => true;
export const done = () => nothing();
export const affected = () => ({ _: "messages.affectedMessages", pts: 1, pts_count: 0 });
export const history = () => ({ _: "messages.affectedHistory", pts: 1, pts_count: 0, offset: 0 });
export const invited = () => ({ _: "messages.invitedUsers", updates: nothing(), missing_invitees: [{ _: "missingInvitee", user_id: 13n, premium_would_allow_invite: true }] });
export const failed = (v: any) => check(JSON.stringify(v?.map((f: any) => f.userId)) === "[13]", () => `the call says of who could not be added ${JSON.stringify(v)}`, "who could not be added");
export const is = (want: any) => (v: any) => check(JSON.stringify(v) === JSON.stringify(want), () => `the call gives ${JSON.stringify(v)} instead of ${JSON.stringify(want)}`, "what the call gives");

export const chatOnly = (x: Exp) => [x.chat.id];
export const withBob = (x: Exp) => [x.chat.id, 12, x.p];
export const nowhere = { chats: [ALICE] };
export const ids: Opt[] = [arg("id", 0, bad), arg("id", -1, bad), arg("id", 2.5, bad), arg("id", NaN, bad)];
export const limits: Opt[] = [o("limit", 1, put({ limit: 1 })), o("limit", 100, put({ limit: 100 })), o("limit", 101, put({ limit: 100 })), o("limit", 0, put({ limit: 1 })), o("limit", -3, put({ limit: 1 })), o("limit", 37, put({ limit: 37 }))];
export const BUSINESS = o("businessConnectionId", "bc", (x) => void (x.business = "bc"), { only: "bot" });


/** `args`: of the method, for a combination of arguments that are not the default ones */
export function table() {
  const list: { name: string; call: Spec["call"]; req: Req; answer: Spec["answer"]; opts: Opt[]; more: Partial<Spec> }[] = [];
  function method(name: string, args: (x: Exp) => any[], req: Req, answer: Spec["answer"], opts: Opt[] = [], more: Partial<Spec> = {}) {
    list.push({ name, call: (c, x) => c[name.split(" ")[0]](...args(x)), req, answer, opts, more });
  }
  const specs = (bot: boolean): Spec[] => list.map((l) => ({ name: l.name, bot, call: l.call, req: l.req, answer: l.answer, opts: l.opts, ...l.more }));
  return { method, specs };
}

/** The request carries a proof of the password; the right one unless told otherwise. */
export const proof = (x: Exp, what = "right") => {
  x.before = [{ _: "account.getPassword" }];
  x.req.password = what;
};
export const PROOF: Opt = o("password", PASSWORD, (x) => proof(x));
