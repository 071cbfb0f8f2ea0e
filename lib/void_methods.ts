// Methods of a client that promise no value.
export const VOID = new Set(
  (`addBotToAttachmentsMenu addChatToCommunity addContact addMusicToProfile addPollOption addReaction addSavedNotificationSound addStickerSet
addStickerToFavorites addStickerToRecents addStickerToStickerSet addStoriesToHighlights addStoryToHighlights addToChecklist allowBotToSetCustomEmojiStatus allowUnpaidMessagesFromUser
answerCallbackQuery answerInlineQuery answerPreCheckoutQuery approveJoinRequest approveJoinRequests archiveChat archiveChats archiveStickerSet
banChatMember blockUser boostChat changeStickerPositionInStickerSet checkChecklistItem checkChecklistItems clearDrafts clearRecentEmojiStatuses
clearRecentReactions clearRecentStickers closeChat closeTopic connect craftGifts declineJoinRequest declineJoinRequests
deleteAccount deleteChat deleteChatMemberMessages deleteChatPhoto deleteChatStickerSet deleteCommunity deleteContact deleteContacts
deleteEphemeralMessage deleteGiftCollection deleteMessage deleteMessages deleteMyCommands deleteRevokedInviteLinks deleteScheduledMessage deleteScheduledMessages
deleteStickerSet deleteStories deleteStory deleteStoryAlbum deleteTopic disableAntispam disableBusinessBots disableChatHistoryForNewMembers
disableJoinRequests disableSharing disableSignatures disableSlowMode disableSponsoredMessages disableTopics disallowBotToSetCustomEmojiStatus disallowUnpaidMessagesFromUser
disconnect disconnectConnectedWebsite disconnectConnectedWebsites editInlineMessageCaption editInlineMessageLiveLocation editInlineMessageMedia editInlineMessageReplyMarkup editInlineMessageRichText
editInlineMessageText editMessageLiveLocation editMessageReplyMarkup enableAntispam enableBusinessBots enableChatHistoryForNewMembers enableJoinRequests enableSharing
enableSignatures enableSponsoredMessages enableTopics endTakeoutSession giftPremiumSubscription hideGeneralTopic hideMemberList hideUsername
importAuthString joinLiveStream kickChatMember leaveChat leaveVideoChat markAllMentionsAsRead markChatAsRead markChatAsUnread
openChat pauseBusinessBotConnection pinMessage pinTopic promoteChatMember readMessages refundStarPayment removeAuthorizationSession
removeAuthorizationSessions removeBotFromAttachmentsMenu removeBusinessAwayMessage removeBusinessGreetingMessage removeBusinessIntro removeChannelEmojiStatus removeChatFromCommunity removeEmojiStatus
removeMusicFromProfile removePollOption removeProfilePhoto removeReaction removeSavedNotificationSound removeStickerFromFavorites removeStickerFromRecents removeStickerFromStickerSet
removeStickerSet removeStoriesFromHighlights removeStoryFromHighlights removeUserEmojiStatus removeUserReaction removeUserReactions removeUsername reopenTopic
reorderGiftCollections reorderStoryAlbums replaceStickerEmoji replaceStickerInStickerSet reportChat reportReaction resetNotificationSettings resumeBusinessBotConnection
retractVote saveAnimation saveDraft saveRichTextDraft sellGift sendChatAction sendCode sendGift
sendMessageDraft sendRichTextDraft sendScreenshotNotification sendSecretAnimation sendSecretAudio sendSecretCancelTypingAction sendSecretContact sendSecretDocument
sendSecretLocation sendSecretMessage sendSecretPhoto sendSecretScreenshotNotification sendSecretSticker sendSecretTypingAction sendSecretVenue sendSecretVideo
sendSecretVideoNote sendSecretVoice setAccountTtl setArchiveAndMuteNewChatsFromUnknownUsers setAvailableReactions setBirthday setBoostsRequiredToCircumventRestrictions setBusinessAwayMessage
setBusinessGreetingMessage setBusinessIntro setChannelEmojiStatus setChatDescription setChatMemberRights setChatMemberTag setChatPhoto setChatStickerSet
setChatTitle setCloseFriends setContactNote setCustomEmojiAsStickerSetThumbnail setDefaultMessageTtl setDefaultReaction setDefaultSendAs setDiscussionChat
setEmojiStatus setGiftPrivacy setIsOnline setLocation setManagedBotAccessSettings setMessageTtl setMyCommands setMyDescription
setMyName setMyShortDescription setNameColor setNewChatPrivacy setNotificationSettings setPersonalChannel setProfileColor setReactions
setReadDatePrivacy setSlowMode setStickerSetThumbnail setStickerSetTitle setUserEmojiStatus setUsername setWorkingHours showCommunityAsDifferentChats
showCommunityAsOneChat showGeneralTopic showMemberList showUsername signIn signOut start suggestBirthday
transferChatOwnership transferGift unarchiveChat unarchiveChats unarchiveStickerSet unbanChatMember unblockUser uncheckChecklistItem
uncheckChecklistItems unpinMessage unpinMessages unpinTopic unsaveAnimation updateChecklist updateProfile updateProfilePhoto
updateProfileVideo viewMessage viewMessages vote`).split(/\s+/),
);
