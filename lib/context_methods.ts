/** The methods of Context by how many arguments they take. */
export const contextMethods: Record<number, string> = {
  0: "acceptSecretChat approveJoinRequest archive blockUser close declineJoinRequest delete deleteChat deleteChatPhoto deleteChatStickerSet disableAntispam disableBusinessBots disableChatHistoryForNewMembers disableJoinRequests disableSharing disableSignatures disableSlowMode disableTopics enableAntispam enableBusinessBots enableChatHistoryForNewMembers enableJoinRequests enableSharing getBusinessConnection getChat getChatAdministrators getChatSettings getCommonChats getNotificationSettings getOnlineCount getScheduledMessages getSimilarBots getSimilarChannels getStarBalance getStoryAlbums getTonBalance hideGeneralTopic hideMemberList joinChat kickSender leaveChat markChatAsRead markChatAsUnread open pauseBusinessBotConnection read removeAsContact requestSecretChat resumeBusinessBotConnection showGeneralTopic showMemberList unarchive unblockUser unpin unpinMessages",
  1: "addMembers addStoriesToHighlights addStoryToHighlights allowUnpaidMessages answerCallbackQuery answerGuestQuery approveJoinRequests banSender boostChat closeTopic createInviteLink declineJoinRequests deleteChatMemberMessages deleteRevokedInviteLinks deleteScheduledMessage deleteScheduledMessages deleteStories deleteStory deleteStoryAlbum deleteTopic disallowUnpaidMessages editInlineMessageCaption editInlineMessageReplyMarkup enableSignatures enableTopics endSecretChat getChatMember getChatMembers getClaimedGifts getCreatedInviteLinks getHistory getJoinRequests getMessage getMessageCounters getMessageReactions getMessageReadDate getMessages getMessagesCounters getRecentActions getRichText getSavedMessages getStarTransactions getStories getStory getTonTransactions getTopic getTopics getTopicsById kickChatMember pin pinTopic refundStarPayment removeStoriesFromHighlights removeStoryFromHighlights removeUserReactions reopenTopic reorderStoryAlbums replyDice retractVote searchMessages sendScheduledMessage sendScheduledMessages sendScreenshotNotification sendSecretScreenshotNotification setAvailableReactions setBoostsRequiredToCircumventRestrictions setChatDescription setChatStickerSet setChatTitle setDefaultSendAs setDiscussionChat setMemberTag setMessageTtl setNotificationSettings setSenderRights setSlowMode startVideoChat transcribeVoice transferGift unbanChatMember unpinMessage unpinTopic viewMessage viewMessages",
  2: "addAsContact addMember addPollOption addStoriesToAlbum addStoryToAlbum addToChecklist answerInlineQuery answerPreCheckoutQuery banChatMember checkChecklistItem checkChecklistItems createStory createStoryAlbum createTopic deleteEphemeralMessage deleteMessage deleteMessages editInlineMessageMedia editInlineMessageRichText editInlineMessageText editMessageCaption editMessageReplyMarkup editStory forward getPollVoters getStoriesInAlbum gift pinMessage promoteChatMember react removePollOption removeReaction removeStoriesFromAlbum removeStoryFromAlbum removeUserReaction reorderStoriesInAlbum reply replyAnimation replyAudio replyDocument replyMediaGroup replyPhoto replyRichText replySecret replySecretAnimation replySecretAudio replySecretDocument replySecretPhoto replySecretSticker replySecretVideo replySecretVideoNote replySecretVoice replySticker replyVideo replyVideoNote replyVoice reportChat reportEphemeralMessage reportReaction reportStories reportStory saveDraft saveRichTextDraft scheduleVideoChat sendChatAction setChatMemberRights setChatPhoto setStoryAlbumName stopPoll summarizeText transferOwnership uncheckChecklistItem uncheckChecklistItems updateChecklist vote",
  3: "addReaction editEphemeralMessageCaption editEphemeralMessageReplyMarkup editInlineMessageLiveLocation editMessageMedia editMessageRichText editMessageText editTopic forwardMessage forwardMessages replyChecklist replyContact replyDraft replyLivePhoto replyLocation replyPoll replyRichTextDraft replySecretContact replySecretLocation setReactions translateMessage translateMessages",
  4: "editEphemeralMessageMedia editEphemeralMessageText editMessageLiveLocation",
  5: "replySecretVenue replyVenue",
  6: "replyInvoice",
};
