// deno-lint-ignore-file no-explicit-any
// Samples of every kind of update, and the tables a user knows about them.
export const messageTypes = ["text", "link", "photo", "livePhoto", "document", "video", "sticker", "animation", "voice", "audio", "dice", "videoNote", "contact", "game", "poll", "checklist", "invoice", "venue", "location", "newChatMembers", "leftChatMember", "newChatTitle", "newChatPhoto", "deletedChatPhoto", "groupCreated", "supergroupCreated", "channelCreated", "newAutoDeleteTime", "chatMigratedTo", "chatMigratedFrom", "pinnedMessage", "userShared", "writeAccessAllowed", "forumTopicCreated", "forumTopicEdited", "forumTopicClosed", "forumTopicReopened", "videoChatScheduled", "videoChatStarted", "videoChatEnded", "giveaway", "unsupported", "successfulPayment", "refundedPayment", "checklistChanged", "checklistExtended", "giftNonUpgraded", "giftUpgraded", "pollOptionAdded", "pollOptionRemoved", "screenshotTaken", "richText", "addedToCommunity", "removedFromCommunity"];
/** Messages that carry nothing named as their type. */
const bare = ["deletedChatPhoto", "groupCreated", "supergroupCreated", "channelCreated", "forumTopicClosed", "forumTopicReopened", "videoChatStarted", "unsupported", "screenshotTaken", "addedToCommunity", "removedFromCommunity"];
export const secretTypes = ["text", "location", "contact", "venue", "webPage", "photo", "video", "videoNote", "audio", "document", "sticker", "animation", "voice"];
export const updateTypes = ["connectionState", "authorizationState", "update", "message", "editedMessage", "scheduledMessage", "deletedMessages", "callbackQuery", "inlineQuery", "guestQuery", "chosenInlineResult", "newChat", "editedChat", "deletedChat", "messageInteractions", "messageReactionCount", "messageReactions", "chatMember", "myChatMember", "deletedStory", "story", "businessConnection", "videoChat", "preCheckoutQuery", "joinRequest", "translations", "poll", "pollAnswer", "voiceTranscription", "linkPreview", "uploadProgress", "botCommands", "emojiStatus", "emojiStatusRemoved", "chatAction", "messageDraft", "secretChat", "secretMessage", "secretTyping", "managedBot"];

export const user = (id: number, over: any = {}) => ({ id, color: 0, isBot: false, firstName: `u${id}`, ...over });
export const chats = {
  private: { id: 501, color: 0, type: "private", firstName: "P" },
  group: { id: -502, color: 0, type: "group", title: "G" },
  supergroup: { id: -1000000000503, color: 0, type: "supergroup", title: "S" },
  channel: { id: -1000000000504, color: 0, type: "channel", title: "C" },
};
export function message(type: string, over: any = {}) {
  const m: any = { type, id: 77, chat: chats.private, from: user(601), date: 1, isOutgoing: false };
  if (type === "text") m.text = "abc", m.entities = [];
  else if (type === "link") m.linkPreview = { url: "x" };
  else if (type === "livePhoto") m.photo = {}, m.video = {}, m.caption = "";
  else if (!bare.includes(type)) m[type] = {}, m.caption = "";
  return { ...m, ...over };
}
export function secretMessage(type: string, over: any = {}) {
  const m: any = { type, id: "s1", chatId: 8801, isSilent: false, ttl: 0 };
  if (type === "text") m.text = "abc", m.entities = [];
  else if (type === "webPage") m.url = "x", m.caption = "";
  else m[type] = {}, m.caption = "";
  return { ...m, ...over };
}
/** One update of each kind; for kinds with variants, all of them. */
export function samples(): [string, any][] {
  const out: [string, any][] = [];
  const add = (name: string, u: any) => out.push([name, u]);
  const U = user(610);
  const C = chats.supergroup;
  for (const type of updateTypes) {
    switch (type) {
      case "connectionState":
        add(type, { type, connectionState: "ready" });
        break;
      case "authorizationState":
        add(`${type} in`, { type, authorizationState: { isAuthorized: true, userId: 1 } });
        add(`${type} out`, { type, authorizationState: { isAuthorized: false } });
        break;
      case "update":
        for (const _ of rawNames) add(`${type} ${_}`, { type, update: { _ } });
        break;
      case "message":
      case "editedMessage":
      case "scheduledMessage":
        for (const t of messageTypes) add(`${type}:${t}`, { type, [type]: message(t) });
        for (const c of Object.values(chats)) add(`${type} in a ${c.type}`, { type, [type]: message("text", { chat: c }) });
        break;
      case "secretMessage":
        for (const t of secretTypes) add(`${type}:${t}`, { type, secretMessage: secretMessage(t) });
        break;
      case "callbackQuery":
        add(`${type} data`, { type, callbackQuery: { id: "q", from: U, message: message("text", { chat: chats.group }), data: "d" } });
        add(`${type} game`, { type, callbackQuery: { id: "q", from: U, message: message("game"), gameShortName: "g" } });
        add(`${type} inline data`, { type, callbackQuery: { id: "q", from: U, inlineMessageId: "i", data: "d" } });
        add(`${type} inline game`, { type, callbackQuery: { id: "q", from: U, inlineMessageId: "i", gameShortName: "g" } });
        break;
      case "guestQuery":
        add(type, { type, guestQuery: { id: "q", message: message("text", { chat: chats.group }) } });
        break;
      case "inlineQuery":
        add(type, { type, inlineQuery: { id: "q", from: U, query: "abc", offset: "" } });
        break;
      case "chosenInlineResult":
        add(`${type} inline`, { type, chosenInlineResult: { resultId: "r", from: U, query: "abc", inlineMessageId: "i" } });
        add(type, { type, chosenInlineResult: { resultId: "r", from: U, query: "abc" } });
        break;
      case "newChat":
      case "editedChat":
        add(type, { type, [type]: { chat: C, order: "1" } });
        break;
      case "deletedMessages":
        add(type, { type, deletedMessages: [{ chatId: 1, messageId: 2 }] });
        break;
      case "deletedChat":
      case "messageInteractions":
      case "botCommands":
      case "chatAction":
        add(type, { type, [type]: { chatId: -702, messageId: 9 } });
        break;
      case "messageReactionCount":
        add(type, { type, [type]: { chat: C, messageId: 5, date: 1, counts: [] } });
        break;
      case "messageReactions":
        add(type, { type, [type]: { chat: C, messageId: 5, user: U, date: 1, oldReactions: [], newReactions: [] } });
        break;
      case "chatMember":
      case "myChatMember":
        add(type, { type, [type]: { chat: C, from: U, date: 1 } });
        break;
      case "joinRequest":
        add(type, { type, [type]: { chat: C, from: U, date: 1 } });
        break;
      case "story":
        add(type, { type, story: { id: 12, chat: chats.channel } });
        break;
      case "deletedStory":
        add(type, { type, deletedStory: { chatId: -703, storyId: 12 } });
        break;
      case "businessConnection":
        add(type, { type, businessConnection: { id: "b", user: U, userChatId: 610 } });
        break;
      case "preCheckoutQuery":
      case "pollAnswer":
        add(type, { type, [type]: { id: "p", from: U } });
        break;
      case "translations":
        add(type, { type, translations: [], platform: "x", language: "en" });
        break;
      case "emojiStatus":
        add(type, { type, emojiStatus: { type: "customEmoji" }, userId: 1 });
        break;
      case "emojiStatusRemoved":
        add(type, { type, userId: 1 });
        break;
      case "secretChat":
        add(type, { type, secretChat: { id: 8802, state: "active" } });
        break;
      case "secretTyping":
        add(type, { type, chatId: 8801 });
        break;
      case "managedBot":
        add(type, { type, user: U, bot: U });
        break;
      default:
        add(type, { type, [type]: {} });
    }
  }
  return out;
}
export const rawNames = ["updateNewMessage", "updateUserStatus", "updateChatUserTyping", "updateConfig"];
