//! Generated by tools/gen_dispatch.py from spec/grammar.json: one entry per decoder under test.
use s2protocol::versions::{protocol75689, protocol87702};
use super::{Out, run_ba, run_bp};
pub type F = fn(&[u8], usize) -> Out;
pub static TABLE: &[(u32, bool, &str, F)] = &[
    (87702, true, "EObserve", |d, o| run_ba(d, o, protocol87702::byte_aligned::EObserve::parse)),
    (87702, true, "GameCPlayerDetailsArray", |d, o| run_ba(d, o, protocol87702::byte_aligned::GameCPlayerDetailsArray::parse)),
    (87702, true, "GameEGameSpeed", |d, o| run_ba(d, o, protocol87702::byte_aligned::GameEGameSpeed::parse)),
    (87702, true, "GameEResultDetails", |d, o| run_ba(d, o, protocol87702::byte_aligned::GameEResultDetails::parse)),
    (87702, true, "GameSColor", |d, o| run_ba(d, o, protocol87702::byte_aligned::GameSColor::parse)),
    (87702, true, "GameSDetails", |d, o| run_ba(d, o, protocol87702::byte_aligned::GameSDetails::parse)),
    (87702, true, "GameSPlayerDetails", |d, o| run_ba(d, o, protocol87702::byte_aligned::GameSPlayerDetails::parse)),
    (87702, true, "GameSThumbnail", |d, o| run_ba(d, o, protocol87702::byte_aligned::GameSThumbnail::parse)),
    (87702, true, "GameSToonNameDetails", |d, o| run_ba(d, o, protocol87702::byte_aligned::GameSToonNameDetails::parse)),
    (87702, true, "ReplaySHeader", |d, o| run_ba(d, o, protocol87702::byte_aligned::ReplaySHeader::parse)),
    (87702, true, "ReplayTrackerEEventId", |d, o| run_ba(d, o, protocol87702::byte_aligned::ReplayTrackerEEventId::parse)),
    (87702, true, "ReplayTrackerSPlayerSetupEvent", |d, o| run_ba(d, o, protocol87702::byte_aligned::ReplayTrackerSPlayerSetupEvent::parse)),
    (87702, true, "ReplayTrackerSPlayerStats", |d, o| run_ba(d, o, protocol87702::byte_aligned::ReplayTrackerSPlayerStats::parse)),
    (87702, true, "ReplayTrackerSPlayerStatsEvent", |d, o| run_ba(d, o, protocol87702::byte_aligned::ReplayTrackerSPlayerStatsEvent::parse)),
    (87702, true, "ReplayTrackerSUnitBornEvent", |d, o| run_ba(d, o, protocol87702::byte_aligned::ReplayTrackerSUnitBornEvent::parse)),
    (87702, true, "ReplayTrackerSUnitDiedEvent", |d, o| run_ba(d, o, protocol87702::byte_aligned::ReplayTrackerSUnitDiedEvent::parse)),
    (87702, true, "ReplayTrackerSUnitDoneEvent", |d, o| run_ba(d, o, protocol87702::byte_aligned::ReplayTrackerSUnitDoneEvent::parse)),
    (87702, true, "ReplayTrackerSUnitInitEvent", |d, o| run_ba(d, o, protocol87702::byte_aligned::ReplayTrackerSUnitInitEvent::parse)),
    (87702, true, "ReplayTrackerSUnitOwnerChangeEvent", |d, o| run_ba(d, o, protocol87702::byte_aligned::ReplayTrackerSUnitOwnerChangeEvent::parse)),
    (87702, true, "ReplayTrackerSUnitPositionsEvent", |d, o| run_ba(d, o, protocol87702::byte_aligned::ReplayTrackerSUnitPositionsEvent::parse)),
    (87702, true, "ReplayTrackerSUnitTypeChangeEvent", |d, o| run_ba(d, o, protocol87702::byte_aligned::ReplayTrackerSUnitTypeChangeEvent::parse)),
    (87702, true, "ReplayTrackerSUpgradeEvent", |d, o| run_ba(d, o, protocol87702::byte_aligned::ReplayTrackerSUpgradeEvent::parse)),
    (87702, true, "SVarUint32", |d, o| run_ba(d, o, protocol87702::byte_aligned::SVarUint32::parse)),
    (87702, true, "SVersion", |d, o| run_ba(d, o, protocol87702::byte_aligned::SVersion::parse)),
    (87702, true, "Smd5", |d, o| run_ba(d, o, protocol87702::byte_aligned::Smd5::parse)),
    (87702, false, "CAllowedObserveTypes", |d, o| run_bp(d, o, protocol87702::bit_packed::CAllowedObserveTypes::parse)),
    (87702, false, "CAllowedRaces", |d, o| run_bp(d, o, protocol87702::bit_packed::CAllowedRaces::parse)),
    (87702, false, "CArtifactHandle", |d, o| run_bp(d, o, protocol87702::bit_packed::CArtifactHandle::parse)),
    (87702, false, "CCacheHandle", |d, o| run_bp(d, o, protocol87702::bit_packed::CCacheHandle::parse)),
    (87702, false, "CClanTag", |d, o| run_bp(d, o, protocol87702::bit_packed::CClanTag::parse)),
    (87702, false, "CCommanderHandle", |d, o| run_bp(d, o, protocol87702::bit_packed::CCommanderHandle::parse)),
    (87702, false, "CFilePath", |d, o| run_bp(d, o, protocol87702::bit_packed::CFilePath::parse)),
    (87702, false, "CHeroHandle", |d, o| run_bp(d, o, protocol87702::bit_packed::CHeroHandle::parse)),
    (87702, false, "CMountHandle", |d, o| run_bp(d, o, protocol87702::bit_packed::CMountHandle::parse)),
    (87702, false, "CSkinHandle", |d, o| run_bp(d, o, protocol87702::bit_packed::CSkinHandle::parse)),
    (87702, false, "CToonHandle", |d, o| run_bp(d, o, protocol87702::bit_packed::CToonHandle::parse)),
    (87702, false, "CUserInitialDataArray", |d, o| run_bp(d, o, protocol87702::bit_packed::CUserInitialDataArray::parse)),
    (87702, false, "CUserName", |d, o| run_bp(d, o, protocol87702::bit_packed::CUserName::parse)),
    (87702, false, "ELeaveReason", |d, o| run_bp(d, o, protocol87702::bit_packed::ELeaveReason::parse)),
    (87702, false, "EObserve", |d, o| run_bp(d, o, protocol87702::bit_packed::EObserve::parse)),
    (87702, false, "EReconnectStatus", |d, o| run_bp(d, o, protocol87702::bit_packed::EReconnectStatus::parse)),
    (87702, false, "GameCAllowedAiBuild", |d, o| run_bp(d, o, protocol87702::bit_packed::GameCAllowedAiBuild::parse)),
    (87702, false, "GameCAllowedColors", |d, o| run_bp(d, o, protocol87702::bit_packed::GameCAllowedColors::parse)),
    (87702, false, "GameCAllowedControls", |d, o| run_bp(d, o, protocol87702::bit_packed::GameCAllowedControls::parse)),
    (87702, false, "GameCAllowedDifficulty", |d, o| run_bp(d, o, protocol87702::bit_packed::GameCAllowedDifficulty::parse)),
    (87702, false, "GameCArtifactArray", |d, o| run_bp(d, o, protocol87702::bit_packed::GameCArtifactArray::parse)),
    (87702, false, "GameCAuthorName", |d, o| run_bp(d, o, protocol87702::bit_packed::GameCAuthorName::parse)),
    (87702, false, "GameCCacheHandle", |d, o| run_bp(d, o, protocol87702::bit_packed::GameCCacheHandle::parse)),
    (87702, false, "GameCCacheHandles", |d, o| run_bp(d, o, protocol87702::bit_packed::GameCCacheHandles::parse)),
    (87702, false, "GameCChatString", |d, o| run_bp(d, o, protocol87702::bit_packed::GameCChatString::parse)),
    (87702, false, "GameCCheatString", |d, o| run_bp(d, o, protocol87702::bit_packed::GameCCheatString::parse)),
    (87702, false, "GameCCommanderMasteryTalentArray", |d, o| run_bp(d, o, protocol87702::bit_packed::GameCCommanderMasteryTalentArray::parse)),
    (87702, false, "GameCGameCacheName", |d, o| run_bp(d, o, protocol87702::bit_packed::GameCGameCacheName::parse)),
    (87702, false, "GameCLicenseArray", |d, o| run_bp(d, o, protocol87702::bit_packed::GameCLicenseArray::parse)),
    (87702, false, "GameCLobbySlotArray", |d, o| run_bp(d, o, protocol87702::bit_packed::GameCLobbySlotArray::parse)),
    (87702, false, "GameCModPaths", |d, o| run_bp(d, o, protocol87702::bit_packed::GameCModPaths::parse)),
    (87702, false, "GameCPlayerDetailsArray", |d, o| run_bp(d, o, protocol87702::bit_packed::GameCPlayerDetailsArray::parse)),
    (87702, false, "GameCRetryMutationIndexArray", |d, o| run_bp(d, o, protocol87702::bit_packed::GameCRetryMutationIndexArray::parse)),
    (87702, false, "GameCRewardArray", |d, o| run_bp(d, o, protocol87702::bit_packed::GameCRewardArray::parse)),
    (87702, false, "GameCRewardOverride", |d, o| run_bp(d, o, protocol87702::bit_packed::GameCRewardOverride::parse)),
    (87702, false, "GameCRewardOverrideArray", |d, o| run_bp(d, o, protocol87702::bit_packed::GameCRewardOverrideArray::parse)),
    (87702, false, "GameCTriggerChatMessageString", |d, o| run_bp(d, o, protocol87702::bit_packed::GameCTriggerChatMessageString::parse)),
    (87702, false, "GameEClientDebugFlags", |d, o| run_bp(d, o, protocol87702::bit_packed::GameEClientDebugFlags::parse)),
    (87702, false, "GameECommandManagerState", |d, o| run_bp(d, o, protocol87702::bit_packed::GameECommandManagerState::parse)),
    (87702, false, "GameEControl", |d, o| run_bp(d, o, protocol87702::bit_packed::GameEControl::parse)),
    (87702, false, "GameEControlGroupUpdate", |d, o| run_bp(d, o, protocol87702::bit_packed::GameEControlGroupUpdate::parse)),
    (87702, false, "GameEConversationSkip", |d, o| run_bp(d, o, protocol87702::bit_packed::GameEConversationSkip::parse)),
    (87702, false, "GameEDebug", |d, o| run_bp(d, o, protocol87702::bit_packed::GameEDebug::parse)),
    (87702, false, "GameEEventId", |d, o| run_bp(d, o, protocol87702::bit_packed::GameEEventId::parse)),
    (87702, false, "GameEGameLaunch", |d, o| run_bp(d, o, protocol87702::bit_packed::GameEGameLaunch::parse)),
    (87702, false, "GameEGameSpeed", |d, o| run_bp(d, o, protocol87702::bit_packed::GameEGameSpeed::parse)),
    (87702, false, "GameEGameType", |d, o| run_bp(d, o, protocol87702::bit_packed::GameEGameType::parse)),
    (87702, false, "GameEHijackMethod", |d, o| run_bp(d, o, protocol87702::bit_packed::GameEHijackMethod::parse)),
    (87702, false, "GameEMessageId", |d, o| run_bp(d, o, protocol87702::bit_packed::GameEMessageId::parse)),
    (87702, false, "GameEMessageRecipient", |d, o| run_bp(d, o, protocol87702::bit_packed::GameEMessageRecipient::parse)),
    (87702, false, "GameEOptionFog", |d, o| run_bp(d, o, protocol87702::bit_packed::GameEOptionFog::parse)),
    (87702, false, "GameEOptionObservers", |d, o| run_bp(d, o, protocol87702::bit_packed::GameEOptionObservers::parse)),
    (87702, false, "GameEOptionUserDifficulty", |d, o| run_bp(d, o, protocol87702::bit_packed::GameEOptionUserDifficulty::parse)),
    (87702, false, "GameEPhase", |d, o| run_bp(d, o, protocol87702::bit_packed::GameEPhase::parse)),
    (87702, false, "GameEResultCode", |d, o| run_bp(d, o, protocol87702::bit_packed::GameEResultCode::parse)),
    (87702, false, "GameEResultDetails", |d, o| run_bp(d, o, protocol87702::bit_packed::GameEResultDetails::parse)),
    (87702, false, "GameESynchronous", |d, o| run_bp(d, o, protocol87702::bit_packed::GameESynchronous::parse)),
    (87702, false, "GameESynthesized", |d, o| run_bp(d, o, protocol87702::bit_packed::GameESynthesized::parse)),
    (87702, false, "GameSAchievementAwardedEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSAchievementAwardedEvent::parse)),
    (87702, false, "GameSAddAbsoluteGameSpeedEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSAddAbsoluteGameSpeedEvent::parse)),
    (87702, false, "GameSAddGameSpeedEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSAddGameSpeedEvent::parse)),
    (87702, false, "GameSAllianceEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSAllianceEvent::parse)),
    (87702, false, "GameSBankFileEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSBankFileEvent::parse)),
    (87702, false, "GameSBankKeyEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSBankKeyEvent::parse)),
    (87702, false, "GameSBankSectionEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSBankSectionEvent::parse)),
    (87702, false, "GameSBankSignatureEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSBankSignatureEvent::parse)),
    (87702, false, "GameSBankValueEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSBankValueEvent::parse)),
    (87702, false, "GameSBroadcastCheatEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSBroadcastCheatEvent::parse)),
    (87702, false, "GameSCameraSaveEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSCameraSaveEvent::parse)),
    (87702, false, "GameSCameraUpdateEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSCameraUpdateEvent::parse)),
    (87702, false, "GameSCatalogModifyEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSCatalogModifyEvent::parse)),
    (87702, false, "GameSChatMessage", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSChatMessage::parse)),
    (87702, false, "GameSCheatEventData", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSCheatEventData::parse)),
    (87702, false, "GameSCmdAbil", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSCmdAbil::parse)),
    (87702, false, "GameSCmdData", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSCmdData::parse)),
    (87702, false, "GameSCmdDataTargetUnit", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSCmdDataTargetUnit::parse)),
    (87702, false, "GameSCmdEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSCmdEvent::parse)),
    (87702, false, "GameSCmdUpdateTargetPointEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSCmdUpdateTargetPointEvent::parse)),
    (87702, false, "GameSCmdUpdateTargetUnitEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSCmdUpdateTargetUnitEvent::parse)),
    (87702, false, "GameSColor", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSColor::parse)),
    (87702, false, "GameSCommandManagerResetEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSCommandManagerResetEvent::parse)),
    (87702, false, "GameSCommandManagerStateEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSCommandManagerStateEvent::parse)),
    (87702, false, "GameSControlGroupUpdateEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSControlGroupUpdateEvent::parse)),
    (87702, false, "GameSConvertToReplaySessionEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSConvertToReplaySessionEvent::parse)),
    (87702, false, "GameSDecrementGameTimeRemainingEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSDecrementGameTimeRemainingEvent::parse)),
    (87702, false, "GameSDetails", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSDetails::parse)),
    (87702, false, "GameSDropOurselvesEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSDropOurselvesEvent::parse)),
    (87702, false, "GameSDropUserEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSDropUserEvent::parse)),
    (87702, false, "GameSGameCheatEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSGameCheatEvent::parse)),
    (87702, false, "GameSGameDescription", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSGameDescription::parse)),
    (87702, false, "GameSGameOptions", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSGameOptions::parse)),
    (87702, false, "GameSGameSyncInfo", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSGameSyncInfo::parse)),
    (87702, false, "GameSGameUserJoinEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSGameUserJoinEvent::parse)),
    (87702, false, "GameSGameUserLeaveEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSGameUserLeaveEvent::parse)),
    (87702, false, "GameSHeroTalentTreeSelectedEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSHeroTalentTreeSelectedEvent::parse)),
    (87702, false, "GameSHeroTalentTreeSelectionPanelToggledEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSHeroTalentTreeSelectionPanelToggledEvent::parse)),
    (87702, false, "GameSHijackReplayGameEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSHijackReplayGameEvent::parse)),
    (87702, false, "GameSHijackReplayGameUserInfo", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSHijackReplayGameUserInfo::parse)),
    (87702, false, "GameSHijackReplaySessionEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSHijackReplaySessionEvent::parse)),
    (87702, false, "GameSHijackReplaySessionUserInfo", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSHijackReplaySessionUserInfo::parse)),
    (87702, false, "GameSLoadGameDoneEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSLoadGameDoneEvent::parse)),
    (87702, false, "GameSLoadingProgressMessage", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSLoadingProgressMessage::parse)),
    (87702, false, "GameSLobbySlot", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSLobbySlot::parse)),
    (87702, false, "GameSLobbySlotChange", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSLobbySlotChange::parse)),
    (87702, false, "GameSLobbyState", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSLobbyState::parse)),
    (87702, false, "GameSLobbySyncState", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSLobbySyncState::parse)),
    (87702, false, "GameSMapCoord", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSMapCoord::parse)),
    (87702, false, "GameSMapCoord3D", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSMapCoord3D::parse)),
    (87702, false, "GameSMuteChatEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSMuteChatEvent::parse)),
    (87702, false, "GameSPauseGameEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSPauseGameEvent::parse)),
    (87702, false, "GameSPeerSetSyncLoadingTimeEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSPeerSetSyncLoadingTimeEvent::parse)),
    (87702, false, "GameSPeerSetSyncPlayingTimeEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSPeerSetSyncPlayingTimeEvent::parse)),
    (87702, false, "GameSPickMapTagEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSPickMapTagEvent::parse)),
    (87702, false, "GameSPingMessage", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSPingMessage::parse)),
    (87702, false, "GameSPlayerDetails", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSPlayerDetails::parse)),
    (87702, false, "GameSPoint", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSPoint::parse)),
    (87702, false, "GameSPoint3", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSPoint3::parse)),
    (87702, false, "GameSPointMini", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSPointMini::parse)),
    (87702, false, "GameSReconnectNotifyMessage", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSReconnectNotifyMessage::parse)),
    (87702, false, "GameSReplayJumpEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSReplayJumpEvent::parse)),
    (87702, false, "GameSResourceRequestCancelEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSResourceRequestCancelEvent::parse)),
    (87702, false, "GameSResourceRequestEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSResourceRequestEvent::parse)),
    (87702, false, "GameSResourceRequestFulfillEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSResourceRequestFulfillEvent::parse)),
    (87702, false, "GameSResourceTradeEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSResourceTradeEvent::parse)),
    (87702, false, "GameSSaveGameDoneEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSSaveGameDoneEvent::parse)),
    (87702, false, "GameSSaveGameEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSSaveGameEvent::parse)),
    (87702, false, "GameSSelectionDelta", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSSelectionDelta::parse)),
    (87702, false, "GameSSelectionDeltaEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSSelectionDeltaEvent::parse)),
    (87702, false, "GameSSelectionDeltaSubgroup", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSSelectionDeltaSubgroup::parse)),
    (87702, false, "GameSSelectionMask", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSSelectionMask::parse)),
    (87702, false, "GameSSelectionSyncCheckEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSSelectionSyncCheckEvent::parse)),
    (87702, false, "GameSSelectionSyncData", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSSelectionSyncData::parse)),
    (87702, false, "GameSServerPingMessage", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSServerPingMessage::parse)),
    (87702, false, "GameSSessionCheatEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSSessionCheatEvent::parse)),
    (87702, false, "GameSSessionSyncInfo", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSSessionSyncInfo::parse)),
    (87702, false, "GameSSetAbsoluteGameSpeedEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSSetAbsoluteGameSpeedEvent::parse)),
    (87702, false, "GameSSetGameDurationEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSSetGameDurationEvent::parse)),
    (87702, false, "GameSSetGameSpeedEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSSetGameSpeedEvent::parse)),
    (87702, false, "GameSSetLobbySlotEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSSetLobbySlotEvent::parse)),
    (87702, false, "GameSSetSyncLoadingTimeEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSSetSyncLoadingTimeEvent::parse)),
    (87702, false, "GameSSetSyncPlayingTimeEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSSetSyncPlayingTimeEvent::parse)),
    (87702, false, "GameSSingleStepGameEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSSingleStepGameEvent::parse)),
    (87702, false, "GameSSlotDescription", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSSlotDescription::parse)),
    (87702, false, "GameSSlotDescriptions", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSSlotDescriptions::parse)),
    (87702, false, "GameSStartGameEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSStartGameEvent::parse)),
    (87702, false, "GameSSyncSoundLength", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSSyncSoundLength::parse)),
    (87702, false, "GameSThumbnail", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSThumbnail::parse)),
    (87702, false, "GameSToonNameDetails", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSToonNameDetails::parse)),
    (87702, false, "GameSTriggerAbortMissionEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerAbortMissionEvent::parse)),
    (87702, false, "GameSTriggerAnimLengthQueryByNameEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerAnimLengthQueryByNameEvent::parse)),
    (87702, false, "GameSTriggerAnimLengthQueryByPropsEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerAnimLengthQueryByPropsEvent::parse)),
    (87702, false, "GameSTriggerAnimOffsetEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerAnimOffsetEvent::parse)),
    (87702, false, "GameSTriggerBattleReportPanelExitEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerBattleReportPanelExitEvent::parse)),
    (87702, false, "GameSTriggerBattleReportPanelPlayMissionEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerBattleReportPanelPlayMissionEvent::parse)),
    (87702, false, "GameSTriggerBattleReportPanelPlaySceneEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerBattleReportPanelPlaySceneEvent::parse)),
    (87702, false, "GameSTriggerBattleReportPanelSelectionChangedEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerBattleReportPanelSelectionChangedEvent::parse)),
    (87702, false, "GameSTriggerButtonPressedEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerButtonPressedEvent::parse)),
    (87702, false, "GameSTriggerChatMessageEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerChatMessageEvent::parse)),
    (87702, false, "GameSTriggerCommandErrorEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerCommandErrorEvent::parse)),
    (87702, false, "GameSTriggerConversationSkippedEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerConversationSkippedEvent::parse)),
    (87702, false, "GameSTriggerCustomDialogDismissedEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerCustomDialogDismissedEvent::parse)),
    (87702, false, "GameSTriggerCutsceneBookmarkFiredEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerCutsceneBookmarkFiredEvent::parse)),
    (87702, false, "GameSTriggerCutsceneConversationLineEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerCutsceneConversationLineEvent::parse)),
    (87702, false, "GameSTriggerCutsceneConversationLineMissingEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerCutsceneConversationLineMissingEvent::parse)),
    (87702, false, "GameSTriggerCutsceneEndSceneFiredEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerCutsceneEndSceneFiredEvent::parse)),
    (87702, false, "GameSTriggerDialogControlEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerDialogControlEvent::parse)),
    (87702, false, "GameSTriggerGameCreditsFinishedEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerGameCreditsFinishedEvent::parse)),
    (87702, false, "GameSTriggerGameMenuItemSelectedEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerGameMenuItemSelectedEvent::parse)),
    (87702, false, "GameSTriggerHotkeyPressedEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerHotkeyPressedEvent::parse)),
    (87702, false, "GameSTriggerKeyPressedEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerKeyPressedEvent::parse)),
    (87702, false, "GameSTriggerMercenaryPanelExitEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerMercenaryPanelExitEvent::parse)),
    (87702, false, "GameSTriggerMercenaryPanelPurchaseEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerMercenaryPanelPurchaseEvent::parse)),
    (87702, false, "GameSTriggerMercenaryPanelSelectionChangedEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerMercenaryPanelSelectionChangedEvent::parse)),
    (87702, false, "GameSTriggerMouseClickedEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerMouseClickedEvent::parse)),
    (87702, false, "GameSTriggerMouseMovedEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerMouseMovedEvent::parse)),
    (87702, false, "GameSTriggerMouseWheelEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerMouseWheelEvent::parse)),
    (87702, false, "GameSTriggerMovieFinishedEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerMovieFinishedEvent::parse)),
    (87702, false, "GameSTriggerMovieFunctionEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerMovieFunctionEvent::parse)),
    (87702, false, "GameSTriggerMovieStartedEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerMovieStartedEvent::parse)),
    (87702, false, "GameSTriggerPingEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerPingEvent::parse)),
    (87702, false, "GameSTriggerPlanetMissionLaunchedEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerPlanetMissionLaunchedEvent::parse)),
    (87702, false, "GameSTriggerPlanetMissionSelectedEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerPlanetMissionSelectedEvent::parse)),
    (87702, false, "GameSTriggerPlanetPanelBirthCompleteEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerPlanetPanelBirthCompleteEvent::parse)),
    (87702, false, "GameSTriggerPlanetPanelCanceledEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerPlanetPanelCanceledEvent::parse)),
    (87702, false, "GameSTriggerPlanetPanelDeathCompleteEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerPlanetPanelDeathCompleteEvent::parse)),
    (87702, false, "GameSTriggerPlanetPanelReplayEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerPlanetPanelReplayEvent::parse)),
    (87702, false, "GameSTriggerPortraitLoadedEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerPortraitLoadedEvent::parse)),
    (87702, false, "GameSTriggerProfilerLoggingFinishedEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerProfilerLoggingFinishedEvent::parse)),
    (87702, false, "GameSTriggerPurchaseExitEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerPurchaseExitEvent::parse)),
    (87702, false, "GameSTriggerPurchaseMadeEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerPurchaseMadeEvent::parse)),
    (87702, false, "GameSTriggerPurchasePanelSelectedPurchaseCategoryChangedEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerPurchasePanelSelectedPurchaseCategoryChangedEvent::parse)),
    (87702, false, "GameSTriggerPurchasePanelSelectedPurchaseItemChangedEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerPurchasePanelSelectedPurchaseItemChangedEvent::parse)),
    (87702, false, "GameSTriggerReplySelectedEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerReplySelectedEvent::parse)),
    (87702, false, "GameSTriggerResearchPanelExitEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerResearchPanelExitEvent::parse)),
    (87702, false, "GameSTriggerResearchPanelPurchaseEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerResearchPanelPurchaseEvent::parse)),
    (87702, false, "GameSTriggerResearchPanelSelectionChangedEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerResearchPanelSelectionChangedEvent::parse)),
    (87702, false, "GameSTriggerSkippedEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerSkippedEvent::parse)),
    (87702, false, "GameSTriggerSoundLengthQueryEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerSoundLengthQueryEvent::parse)),
    (87702, false, "GameSTriggerSoundLengthSyncEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerSoundLengthSyncEvent::parse)),
    (87702, false, "GameSTriggerSoundOffsetEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerSoundOffsetEvent::parse)),
    (87702, false, "GameSTriggerSoundtrackDoneEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerSoundtrackDoneEvent::parse)),
    (87702, false, "GameSTriggerTargetModeUpdateEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerTargetModeUpdateEvent::parse)),
    (87702, false, "GameSTriggerTransmissionCompleteEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerTransmissionCompleteEvent::parse)),
    (87702, false, "GameSTriggerTransmissionOffsetEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerTransmissionOffsetEvent::parse)),
    (87702, false, "GameSTriggerVictoryPanelExitEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerVictoryPanelExitEvent::parse)),
    (87702, false, "GameSTriggerVictoryPanelPlayMissionAgainEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTriggerVictoryPanelPlayMissionAgainEvent::parse)),
    (87702, false, "GameSTurnEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSTurnEvent::parse)),
    (87702, false, "GameSUnitClickEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSUnitClickEvent::parse)),
    (87702, false, "GameSUnitHighlightEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSUnitHighlightEvent::parse)),
    (87702, false, "GameSUnpauseGameEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSUnpauseGameEvent::parse)),
    (87702, false, "GameSUserFinishedLoadingEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSUserFinishedLoadingEvent::parse)),
    (87702, false, "GameSUserFinishedLoadingSyncEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSUserFinishedLoadingSyncEvent::parse)),
    (87702, false, "GameSUserOptionsEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSUserOptionsEvent::parse)),
    (87702, false, "GameSaiCommunicateEvent", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSaiCommunicateEvent::parse)),
    (87702, false, "GameSelectionIndexArrayType", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSelectionIndexArrayType::parse)),
    (87702, false, "GameSelectionMaskType", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSelectionMaskType::parse)),
    (87702, false, "GameSuiCoord", |d, o| run_bp(d, o, protocol87702::bit_packed::GameSuiCoord::parse)),
    (87702, false, "GameTAbilLink", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTAbilLink::parse)),
    (87702, false, "GameTAchievementLink", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTAchievementLink::parse)),
    (87702, false, "GameTAchievementTermLink", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTAchievementTermLink::parse)),
    (87702, false, "GameTButtonLink", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTButtonLink::parse)),
    (87702, false, "GameTColorCount", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTColorCount::parse)),
    (87702, false, "GameTColorId", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTColorId::parse)),
    (87702, false, "GameTColorPreference", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTColorPreference::parse)),
    (87702, false, "GameTControlCount", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTControlCount::parse)),
    (87702, false, "GameTControlGroupCount", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTControlGroupCount::parse)),
    (87702, false, "GameTControlGroupId", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTControlGroupId::parse)),
    (87702, false, "GameTControlGroupIndex", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTControlGroupIndex::parse)),
    (87702, false, "GameTControlId", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTControlId::parse)),
    (87702, false, "GameTDifficulty", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTDifficulty::parse)),
    (87702, false, "GameTFixedBits", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTFixedBits::parse)),
    (87702, false, "GameTFixedInt", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTFixedInt::parse)),
    (87702, false, "GameTFixedMiniBitsSigned", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTFixedMiniBitsSigned::parse)),
    (87702, false, "GameTFixedMiniBitsUnsigned", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTFixedMiniBitsUnsigned::parse)),
    (87702, false, "GameTFixedUInt", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTFixedUInt::parse)),
    (87702, false, "GameTFlexLicenseAttributeName", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTFlexLicenseAttributeName::parse)),
    (87702, false, "GameTFlexLicenseAttributeValue", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTFlexLicenseAttributeValue::parse)),
    (87702, false, "GameTFlexLicenseName", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTFlexLicenseName::parse)),
    (87702, false, "GameTHandicap", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTHandicap::parse)),
    (87702, false, "GameTHeroLink", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTHeroLink::parse)),
    (87702, false, "GameTLicense", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTLicense::parse)),
    (87702, false, "GameTLobbySlotCount", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTLobbySlotCount::parse)),
    (87702, false, "GameTLobbySlotId", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTLobbySlotId::parse)),
    (87702, false, "GameTMapCoordFixedBits", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTMapCoordFixedBits::parse)),
    (87702, false, "GameTPlayerCount", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTPlayerCount::parse)),
    (87702, false, "GameTPlayerId", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTPlayerId::parse)),
    (87702, false, "GameTPlayerLogoIndex", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTPlayerLogoIndex::parse)),
    (87702, false, "GameTQueryId", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTQueryId::parse)),
    (87702, false, "GameTReward", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTReward::parse)),
    (87702, false, "GameTSelectionCount", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTSelectionCount::parse)),
    (87702, false, "GameTSelectionIndex", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTSelectionIndex::parse)),
    (87702, false, "GameTSubgroupCount", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTSubgroupCount::parse)),
    (87702, false, "GameTSubgroupIndex", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTSubgroupIndex::parse)),
    (87702, false, "GameTSubgroupPriority", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTSubgroupPriority::parse)),
    (87702, false, "GameTSyncChecksum", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTSyncChecksum::parse)),
    (87702, false, "GameTSyncValue", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTSyncValue::parse)),
    (87702, false, "GameTTeamCount", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTTeamCount::parse)),
    (87702, false, "GameTTeamId", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTTeamId::parse)),
    (87702, false, "GameTTriggerSoundTag", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTTriggerSoundTag::parse)),
    (87702, false, "GameTTriggerThreadTag", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTTriggerThreadTag::parse)),
    (87702, false, "GameTUnitLink", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTUnitLink::parse)),
    (87702, false, "GameTUnitTag", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTUnitTag::parse)),
    (87702, false, "GameTaiBuild", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTaiBuild::parse)),
    (87702, false, "GameTuiCoordX", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTuiCoordX::parse)),
    (87702, false, "GameTuiCoordY", |d, o| run_bp(d, o, protocol87702::bit_packed::GameTuiCoordY::parse)),
    (87702, false, "Int16", |d, o| run_bp(d, o, protocol87702::bit_packed::Int16::parse)),
    (87702, false, "Int32", |d, o| run_bp(d, o, protocol87702::bit_packed::Int32::parse)),
    (87702, false, "Int64", |d, o| run_bp(d, o, protocol87702::bit_packed::Int64::parse)),
    (87702, false, "Int8", |d, o| run_bp(d, o, protocol87702::bit_packed::Int8::parse)),
    (87702, false, "MEventData", |d, o| run_bp(d, o, protocol87702::bit_packed::MEventData::parse)),
    (87702, false, "ReplaySGameUserId", |d, o| run_bp(d, o, protocol87702::bit_packed::ReplaySGameUserId::parse)),
    (87702, false, "ReplaySInitData", |d, o| run_bp(d, o, protocol87702::bit_packed::ReplaySInitData::parse)),
    (87702, false, "SUserInitialData", |d, o| run_bp(d, o, protocol87702::bit_packed::SUserInitialData::parse)),
    (87702, false, "SVarUint32", |d, o| run_bp(d, o, protocol87702::bit_packed::SVarUint32::parse)),
    (87702, false, "SVersion", |d, o| run_bp(d, o, protocol87702::bit_packed::SVersion::parse)),
    (87702, false, "Smd5", |d, o| run_bp(d, o, protocol87702::bit_packed::Smd5::parse)),
    (87702, false, "TRaceCount", |d, o| run_bp(d, o, protocol87702::bit_packed::TRaceCount::parse)),
    (87702, false, "TRaceId", |d, o| run_bp(d, o, protocol87702::bit_packed::TRaceId::parse)),
    (87702, false, "TRacePreference", |d, o| run_bp(d, o, protocol87702::bit_packed::TRacePreference::parse)),
    (87702, false, "TTeamPreference", |d, o| run_bp(d, o, protocol87702::bit_packed::TTeamPreference::parse)),
    (87702, false, "TUserCount", |d, o| run_bp(d, o, protocol87702::bit_packed::TUserCount::parse)),
    (87702, false, "TUserId", |d, o| run_bp(d, o, protocol87702::bit_packed::TUserId::parse)),
    (87702, false, "Uint14", |d, o| run_bp(d, o, protocol87702::bit_packed::Uint14::parse)),
    (87702, false, "Uint16", |d, o| run_bp(d, o, protocol87702::bit_packed::Uint16::parse)),
    (87702, false, "Uint22", |d, o| run_bp(d, o, protocol87702::bit_packed::Uint22::parse)),
    (87702, false, "Uint32", |d, o| run_bp(d, o, protocol87702::bit_packed::Uint32::parse)),
    (87702, false, "Uint6", |d, o| run_bp(d, o, protocol87702::bit_packed::Uint6::parse)),
    (87702, false, "Uint64", |d, o| run_bp(d, o, protocol87702::bit_packed::Uint64::parse)),
    (87702, false, "Uint8", |d, o| run_bp(d, o, protocol87702::bit_packed::Uint8::parse)),
    (75689, true, "EObserve", |d, o| run_ba(d, o, protocol75689::byte_aligned::EObserve::parse)),
    (75689, true, "GameCPlayerDetailsArray", |d, o| run_ba(d, o, protocol75689::byte_aligned::GameCPlayerDetailsArray::parse)),
    (75689, true, "GameEGameSpeed", |d, o| run_ba(d, o, protocol75689::byte_aligned::GameEGameSpeed::parse)),
    (75689, true, "GameEResultDetails", |d, o| run_ba(d, o, protocol75689::byte_aligned::GameEResultDetails::parse)),
    (75689, true, "GameSColor", |d, o| run_ba(d, o, protocol75689::byte_aligned::GameSColor::parse)),
    (75689, true, "GameSDetails", |d, o| run_ba(d, o, protocol75689::byte_aligned::GameSDetails::parse)),
    (75689, true, "GameSPlayerDetails", |d, o| run_ba(d, o, protocol75689::byte_aligned::GameSPlayerDetails::parse)),
    (75689, true, "GameSThumbnail", |d, o| run_ba(d, o, protocol75689::byte_aligned::GameSThumbnail::parse)),
    (75689, true, "GameSToonNameDetails", |d, o| run_ba(d, o, protocol75689::byte_aligned::GameSToonNameDetails::parse)),
    (75689, true, "ReplaySHeader", |d, o| run_ba(d, o, protocol75689::byte_aligned::ReplaySHeader::parse)),
    (75689, true, "ReplayTrackerEEventId", |d, o| run_ba(d, o, protocol75689::byte_aligned::ReplayTrackerEEventId::parse)),
    (75689, true, "ReplayTrackerSPlayerSetupEvent", |d, o| run_ba(d, o, protocol75689::byte_aligned::ReplayTrackerSPlayerSetupEvent::parse)),
    (75689, true, "ReplayTrackerSPlayerStats", |d, o| run_ba(d, o, protocol75689::byte_aligned::ReplayTrackerSPlayerStats::parse)),
    (75689, true, "ReplayTrackerSPlayerStatsEvent", |d, o| run_ba(d, o, protocol75689::byte_aligned::ReplayTrackerSPlayerStatsEvent::parse)),
    (75689, true, "ReplayTrackerSUnitBornEvent", |d, o| run_ba(d, o, protocol75689::byte_aligned::ReplayTrackerSUnitBornEvent::parse)),
    (75689, true, "ReplayTrackerSUnitDiedEvent", |d, o| run_ba(d, o, protocol75689::byte_aligned::ReplayTrackerSUnitDiedEvent::parse)),
    (75689, true, "ReplayTrackerSUnitDoneEvent", |d, o| run_ba(d, o, protocol75689::byte_aligned::ReplayTrackerSUnitDoneEvent::parse)),
    (75689, true, "ReplayTrackerSUnitInitEvent", |d, o| run_ba(d, o, protocol75689::byte_aligned::ReplayTrackerSUnitInitEvent::parse)),
    (75689, true, "ReplayTrackerSUnitOwnerChangeEvent", |d, o| run_ba(d, o, protocol75689::byte_aligned::ReplayTrackerSUnitOwnerChangeEvent::parse)),
    (75689, true, "ReplayTrackerSUnitPositionsEvent", |d, o| run_ba(d, o, protocol75689::byte_aligned::ReplayTrackerSUnitPositionsEvent::parse)),
    (75689, true, "ReplayTrackerSUnitTypeChangeEvent", |d, o| run_ba(d, o, protocol75689::byte_aligned::ReplayTrackerSUnitTypeChangeEvent::parse)),
    (75689, true, "ReplayTrackerSUpgradeEvent", |d, o| run_ba(d, o, protocol75689::byte_aligned::ReplayTrackerSUpgradeEvent::parse)),
    (75689, true, "SVarUint32", |d, o| run_ba(d, o, protocol75689::byte_aligned::SVarUint32::parse)),
    (75689, true, "SVersion", |d, o| run_ba(d, o, protocol75689::byte_aligned::SVersion::parse)),
    (75689, true, "Smd5", |d, o| run_ba(d, o, protocol75689::byte_aligned::Smd5::parse)),
    (75689, false, "CAllowedObserveTypes", |d, o| run_bp(d, o, protocol75689::bit_packed::CAllowedObserveTypes::parse)),
    (75689, false, "CAllowedRaces", |d, o| run_bp(d, o, protocol75689::bit_packed::CAllowedRaces::parse)),
    (75689, false, "CArtifactHandle", |d, o| run_bp(d, o, protocol75689::bit_packed::CArtifactHandle::parse)),
    (75689, false, "CCacheHandle", |d, o| run_bp(d, o, protocol75689::bit_packed::CCacheHandle::parse)),
    (75689, false, "CClanTag", |d, o| run_bp(d, o, protocol75689::bit_packed::CClanTag::parse)),
    (75689, false, "CCommanderHandle", |d, o| run_bp(d, o, protocol75689::bit_packed::CCommanderHandle::parse)),
    (75689, false, "CFilePath", |d, o| run_bp(d, o, protocol75689::bit_packed::CFilePath::parse)),
    (75689, false, "CHeroHandle", |d, o| run_bp(d, o, protocol75689::bit_packed::CHeroHandle::parse)),
    (75689, false, "CMountHandle", |d, o| run_bp(d, o, protocol75689::bit_packed::CMountHandle::parse)),
    (75689, false, "CSkinHandle", |d, o| run_bp(d, o, protocol75689::bit_packed::CSkinHandle::parse)),
    (75689, false, "CToonHandle", |d, o| run_bp(d, o, protocol75689::bit_packed::CToonHandle::parse)),
    (75689, false, "CUserInitialDataArray", |d, o| run_bp(d, o, protocol75689::bit_packed::CUserInitialDataArray::parse)),
    (75689, false, "CUserName", |d, o| run_bp(d, o, protocol75689::bit_packed::CUserName::parse)),
    (75689, false, "ELeaveReason", |d, o| run_bp(d, o, protocol75689::bit_packed::ELeaveReason::parse)),
    (75689, false, "EObserve", |d, o| run_bp(d, o, protocol75689::bit_packed::EObserve::parse)),
    (75689, false, "EReconnectStatus", |d, o| run_bp(d, o, protocol75689::bit_packed::EReconnectStatus::parse)),
    (75689, false, "GameCAllowedAiBuild", |d, o| run_bp(d, o, protocol75689::bit_packed::GameCAllowedAiBuild::parse)),
    (75689, false, "GameCAllowedColors", |d, o| run_bp(d, o, protocol75689::bit_packed::GameCAllowedColors::parse)),
    (75689, false, "GameCAllowedControls", |d, o| run_bp(d, o, protocol75689::bit_packed::GameCAllowedControls::parse)),
    (75689, false, "GameCAllowedDifficulty", |d, o| run_bp(d, o, protocol75689::bit_packed::GameCAllowedDifficulty::parse)),
    (75689, false, "GameCArtifactArray", |d, o| run_bp(d, o, protocol75689::bit_packed::GameCArtifactArray::parse)),
    (75689, false, "GameCAuthorName", |d, o| run_bp(d, o, protocol75689::bit_packed::GameCAuthorName::parse)),
    (75689, false, "GameCCacheHandle", |d, o| run_bp(d, o, protocol75689::bit_packed::GameCCacheHandle::parse)),
    (75689, false, "GameCCacheHandles", |d, o| run_bp(d, o, protocol75689::bit_packed::GameCCacheHandles::parse)),
    (75689, false, "GameCChatString", |d, o| run_bp(d, o, protocol75689::bit_packed::GameCChatString::parse)),
    (75689, false, "GameCCheatString", |d, o| run_bp(d, o, protocol75689::bit_packed::GameCCheatString::parse)),
    (75689, false, "GameCCommanderMasteryTalentArray", |d, o| run_bp(d, o, protocol75689::bit_packed::GameCCommanderMasteryTalentArray::parse)),
    (75689, false, "GameCGameCacheName", |d, o| run_bp(d, o, protocol75689::bit_packed::GameCGameCacheName::parse)),
    (75689, false, "GameCLicenseArray", |d, o| run_bp(d, o, protocol75689::bit_packed::GameCLicenseArray::parse)),
    (75689, false, "GameCLobbySlotArray", |d, o| run_bp(d, o, protocol75689::bit_packed::GameCLobbySlotArray::parse)),
    (75689, false, "GameCModPaths", |d, o| run_bp(d, o, protocol75689::bit_packed::GameCModPaths::parse)),
    (75689, false, "GameCPlayerDetailsArray", |d, o| run_bp(d, o, protocol75689::bit_packed::GameCPlayerDetailsArray::parse)),
    (75689, false, "GameCRewardArray", |d, o| run_bp(d, o, protocol75689::bit_packed::GameCRewardArray::parse)),
    (75689, false, "GameCRewardOverride", |d, o| run_bp(d, o, protocol75689::bit_packed::GameCRewardOverride::parse)),
    (75689, false, "GameCRewardOverrideArray", |d, o| run_bp(d, o, protocol75689::bit_packed::GameCRewardOverrideArray::parse)),
    (75689, false, "GameCTriggerChatMessageString", |d, o| run_bp(d, o, protocol75689::bit_packed::GameCTriggerChatMessageString::parse)),
    (75689, false, "GameEClientDebugFlags", |d, o| run_bp(d, o, protocol75689::bit_packed::GameEClientDebugFlags::parse)),
    (75689, false, "GameECommandManagerState", |d, o| run_bp(d, o, protocol75689::bit_packed::GameECommandManagerState::parse)),
    (75689, false, "GameEControl", |d, o| run_bp(d, o, protocol75689::bit_packed::GameEControl::parse)),
    (75689, false, "GameEControlGroupUpdate", |d, o| run_bp(d, o, protocol75689::bit_packed::GameEControlGroupUpdate::parse)),
    (75689, false, "GameEConversationSkip", |d, o| run_bp(d, o, protocol75689::bit_packed::GameEConversationSkip::parse)),
    (75689, false, "GameEDebug", |d, o| run_bp(d, o, protocol75689::bit_packed::GameEDebug::parse)),
    (75689, false, "GameEEventId", |d, o| run_bp(d, o, protocol75689::bit_packed::GameEEventId::parse)),
    (75689, false, "GameEGameLaunch", |d, o| run_bp(d, o, protocol75689::bit_packed::GameEGameLaunch::parse)),
    (75689, false, "GameEGameSpeed", |d, o| run_bp(d, o, protocol75689::bit_packed::GameEGameSpeed::parse)),
    (75689, false, "GameEGameType", |d, o| run_bp(d, o, protocol75689::bit_packed::GameEGameType::parse)),
    (75689, false, "GameEHijackMethod", |d, o| run_bp(d, o, protocol75689::bit_packed::GameEHijackMethod::parse)),
    (75689, false, "GameEMessageId", |d, o| run_bp(d, o, protocol75689::bit_packed::GameEMessageId::parse)),
    (75689, false, "GameEMessageRecipient", |d, o| run_bp(d, o, protocol75689::bit_packed::GameEMessageRecipient::parse)),
    (75689, false, "GameEOptionFog", |d, o| run_bp(d, o, protocol75689::bit_packed::GameEOptionFog::parse)),
    (75689, false, "GameEOptionObservers", |d, o| run_bp(d, o, protocol75689::bit_packed::GameEOptionObservers::parse)),
    (75689, false, "GameEOptionUserDifficulty", |d, o| run_bp(d, o, protocol75689::bit_packed::GameEOptionUserDifficulty::parse)),
    (75689, false, "GameEPhase", |d, o| run_bp(d, o, protocol75689::bit_packed::GameEPhase::parse)),
    (75689, false, "GameEResultCode", |d, o| run_bp(d, o, protocol75689::bit_packed::GameEResultCode::parse)),
    (75689, false, "GameEResultDetails", |d, o| run_bp(d, o, protocol75689::bit_packed::GameEResultDetails::parse)),
    (75689, false, "GameESynchronous", |d, o| run_bp(d, o, protocol75689::bit_packed::GameESynchronous::parse)),
    (75689, false, "GameESynthesized", |d, o| run_bp(d, o, protocol75689::bit_packed::GameESynthesized::parse)),
    (75689, false, "GameSAchievementAwardedEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSAchievementAwardedEvent::parse)),
    (75689, false, "GameSAddAbsoluteGameSpeedEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSAddAbsoluteGameSpeedEvent::parse)),
    (75689, false, "GameSAddGameSpeedEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSAddGameSpeedEvent::parse)),
    (75689, false, "GameSAllianceEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSAllianceEvent::parse)),
    (75689, false, "GameSBankFileEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSBankFileEvent::parse)),
    (75689, false, "GameSBankKeyEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSBankKeyEvent::parse)),
    (75689, false, "GameSBankSectionEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSBankSectionEvent::parse)),
    (75689, false, "GameSBankSignatureEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSBankSignatureEvent::parse)),
    (75689, false, "GameSBankValueEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSBankValueEvent::parse)),
    (75689, false, "GameSBroadcastCheatEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSBroadcastCheatEvent::parse)),
    (75689, false, "GameSCameraSaveEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSCameraSaveEvent::parse)),
    (75689, false, "GameSCameraUpdateEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSCameraUpdateEvent::parse)),
    (75689, false, "GameSCatalogModifyEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSCatalogModifyEvent::parse)),
    (75689, false, "GameSChatMessage", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSChatMessage::parse)),
    (75689, false, "GameSCheatEventData", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSCheatEventData::parse)),
    (75689, false, "GameSCmdAbil", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSCmdAbil::parse)),
    (75689, false, "GameSCmdData", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSCmdData::parse)),
    (75689, false, "GameSCmdDataTargetUnit", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSCmdDataTargetUnit::parse)),
    (75689, false, "GameSCmdEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSCmdEvent::parse)),
    (75689, false, "GameSCmdUpdateTargetPointEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSCmdUpdateTargetPointEvent::parse)),
    (75689, false, "GameSCmdUpdateTargetUnitEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSCmdUpdateTargetUnitEvent::parse)),
    (75689, false, "GameSColor", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSColor::parse)),
    (75689, false, "GameSCommandManagerResetEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSCommandManagerResetEvent::parse)),
    (75689, false, "GameSCommandManagerStateEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSCommandManagerStateEvent::parse)),
    (75689, false, "GameSControlGroupUpdateEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSControlGroupUpdateEvent::parse)),
    (75689, false, "GameSConvertToReplaySessionEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSConvertToReplaySessionEvent::parse)),
    (75689, false, "GameSDecrementGameTimeRemainingEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSDecrementGameTimeRemainingEvent::parse)),
    (75689, false, "GameSDetails", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSDetails::parse)),
    (75689, false, "GameSDropOurselvesEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSDropOurselvesEvent::parse)),
    (75689, false, "GameSDropUserEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSDropUserEvent::parse)),
    (75689, false, "GameSGameCheatEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSGameCheatEvent::parse)),
    (75689, false, "GameSGameDescription", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSGameDescription::parse)),
    (75689, false, "GameSGameOptions", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSGameOptions::parse)),
    (75689, false, "GameSGameSyncInfo", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSGameSyncInfo::parse)),
    (75689, false, "GameSGameUserJoinEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSGameUserJoinEvent::parse)),
    (75689, false, "GameSGameUserLeaveEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSGameUserLeaveEvent::parse)),
    (75689, false, "GameSHeroTalentTreeSelectedEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSHeroTalentTreeSelectedEvent::parse)),
    (75689, false, "GameSHeroTalentTreeSelectionPanelToggledEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSHeroTalentTreeSelectionPanelToggledEvent::parse)),
    (75689, false, "GameSHijackReplayGameEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSHijackReplayGameEvent::parse)),
    (75689, false, "GameSHijackReplayGameUserInfo", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSHijackReplayGameUserInfo::parse)),
    (75689, false, "GameSHijackReplaySessionEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSHijackReplaySessionEvent::parse)),
    (75689, false, "GameSHijackReplaySessionUserInfo", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSHijackReplaySessionUserInfo::parse)),
    (75689, false, "GameSLoadGameDoneEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSLoadGameDoneEvent::parse)),
    (75689, false, "GameSLoadingProgressMessage", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSLoadingProgressMessage::parse)),
    (75689, false, "GameSLobbySlot", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSLobbySlot::parse)),
    (75689, false, "GameSLobbySlotChange", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSLobbySlotChange::parse)),
    (75689, false, "GameSLobbyState", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSLobbyState::parse)),
    (75689, false, "GameSLobbySyncState", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSLobbySyncState::parse)),
    (75689, false, "GameSMapCoord", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSMapCoord::parse)),
    (75689, false, "GameSMapCoord3D", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSMapCoord3D::parse)),
    (75689, false, "GameSMuteChatEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSMuteChatEvent::parse)),
    (75689, false, "GameSPauseGameEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSPauseGameEvent::parse)),
    (75689, false, "GameSPeerSetSyncLoadingTimeEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSPeerSetSyncLoadingTimeEvent::parse)),
    (75689, false, "GameSPeerSetSyncPlayingTimeEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSPeerSetSyncPlayingTimeEvent::parse)),
    (75689, false, "GameSPickMapTagEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSPickMapTagEvent::parse)),
    (75689, false, "GameSPingMessage", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSPingMessage::parse)),
    (75689, false, "GameSPlayerDetails", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSPlayerDetails::parse)),
    (75689, false, "GameSPoint", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSPoint::parse)),
    (75689, false, "GameSPoint3", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSPoint3::parse)),
    (75689, false, "GameSPointMini", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSPointMini::parse)),
    (75689, false, "GameSReconnectNotifyMessage", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSReconnectNotifyMessage::parse)),
    (75689, false, "GameSReplayJumpEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSReplayJumpEvent::parse)),
    (75689, false, "GameSResourceRequestCancelEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSResourceRequestCancelEvent::parse)),
    (75689, false, "GameSResourceRequestEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSResourceRequestEvent::parse)),
    (75689, false, "GameSResourceRequestFulfillEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSResourceRequestFulfillEvent::parse)),
    (75689, false, "GameSResourceTradeEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSResourceTradeEvent::parse)),
    (75689, false, "GameSSaveGameDoneEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSSaveGameDoneEvent::parse)),
    (75689, false, "GameSSaveGameEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSSaveGameEvent::parse)),
    (75689, false, "GameSSelectionDelta", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSSelectionDelta::parse)),
    (75689, false, "GameSSelectionDeltaEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSSelectionDeltaEvent::parse)),
    (75689, false, "GameSSelectionDeltaSubgroup", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSSelectionDeltaSubgroup::parse)),
    (75689, false, "GameSSelectionMask", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSSelectionMask::parse)),
    (75689, false, "GameSSelectionSyncCheckEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSSelectionSyncCheckEvent::parse)),
    (75689, false, "GameSSelectionSyncData", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSSelectionSyncData::parse)),
    (75689, false, "GameSServerPingMessage", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSServerPingMessage::parse)),
    (75689, false, "GameSSessionCheatEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSSessionCheatEvent::parse)),
    (75689, false, "GameSSessionSyncInfo", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSSessionSyncInfo::parse)),
    (75689, false, "GameSSetAbsoluteGameSpeedEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSSetAbsoluteGameSpeedEvent::parse)),
    (75689, false, "GameSSetGameDurationEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSSetGameDurationEvent::parse)),
    (75689, false, "GameSSetGameSpeedEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSSetGameSpeedEvent::parse)),
    (75689, false, "GameSSetLobbySlotEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSSetLobbySlotEvent::parse)),
    (75689, false, "GameSSetSyncLoadingTimeEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSSetSyncLoadingTimeEvent::parse)),
    (75689, false, "GameSSetSyncPlayingTimeEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSSetSyncPlayingTimeEvent::parse)),
    (75689, false, "GameSSingleStepGameEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSSingleStepGameEvent::parse)),
    (75689, false, "GameSSlotDescription", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSSlotDescription::parse)),
    (75689, false, "GameSSlotDescriptions", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSSlotDescriptions::parse)),
    (75689, false, "GameSStartGameEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSStartGameEvent::parse)),
    (75689, false, "GameSSyncSoundLength", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSSyncSoundLength::parse)),
    (75689, false, "GameSThumbnail", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSThumbnail::parse)),
    (75689, false, "GameSToonNameDetails", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSToonNameDetails::parse)),
    (75689, false, "GameSTriggerAbortMissionEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerAbortMissionEvent::parse)),
    (75689, false, "GameSTriggerAnimLengthQueryByNameEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerAnimLengthQueryByNameEvent::parse)),
    (75689, false, "GameSTriggerAnimLengthQueryByPropsEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerAnimLengthQueryByPropsEvent::parse)),
    (75689, false, "GameSTriggerAnimOffsetEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerAnimOffsetEvent::parse)),
    (75689, false, "GameSTriggerBattleReportPanelExitEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerBattleReportPanelExitEvent::parse)),
    (75689, false, "GameSTriggerBattleReportPanelPlayMissionEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerBattleReportPanelPlayMissionEvent::parse)),
    (75689, false, "GameSTriggerBattleReportPanelPlaySceneEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerBattleReportPanelPlaySceneEvent::parse)),
    (75689, false, "GameSTriggerBattleReportPanelSelectionChangedEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerBattleReportPanelSelectionChangedEvent::parse)),
    (75689, false, "GameSTriggerButtonPressedEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerButtonPressedEvent::parse)),
    (75689, false, "GameSTriggerChatMessageEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerChatMessageEvent::parse)),
    (75689, false, "GameSTriggerCommandErrorEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerCommandErrorEvent::parse)),
    (75689, false, "GameSTriggerConversationSkippedEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerConversationSkippedEvent::parse)),
    (75689, false, "GameSTriggerCustomDialogDismissedEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerCustomDialogDismissedEvent::parse)),
    (75689, false, "GameSTriggerCutsceneBookmarkFiredEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerCutsceneBookmarkFiredEvent::parse)),
    (75689, false, "GameSTriggerCutsceneConversationLineEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerCutsceneConversationLineEvent::parse)),
    (75689, false, "GameSTriggerCutsceneConversationLineMissingEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerCutsceneConversationLineMissingEvent::parse)),
    (75689, false, "GameSTriggerCutsceneEndSceneFiredEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerCutsceneEndSceneFiredEvent::parse)),
    (75689, false, "GameSTriggerDialogControlEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerDialogControlEvent::parse)),
    (75689, false, "GameSTriggerGameCreditsFinishedEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerGameCreditsFinishedEvent::parse)),
    (75689, false, "GameSTriggerGameMenuItemSelectedEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerGameMenuItemSelectedEvent::parse)),
    (75689, false, "GameSTriggerHotkeyPressedEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerHotkeyPressedEvent::parse)),
    (75689, false, "GameSTriggerKeyPressedEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerKeyPressedEvent::parse)),
    (75689, false, "GameSTriggerMercenaryPanelExitEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerMercenaryPanelExitEvent::parse)),
    (75689, false, "GameSTriggerMercenaryPanelPurchaseEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerMercenaryPanelPurchaseEvent::parse)),
    (75689, false, "GameSTriggerMercenaryPanelSelectionChangedEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerMercenaryPanelSelectionChangedEvent::parse)),
    (75689, false, "GameSTriggerMouseClickedEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerMouseClickedEvent::parse)),
    (75689, false, "GameSTriggerMouseMovedEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerMouseMovedEvent::parse)),
    (75689, false, "GameSTriggerMouseWheelEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerMouseWheelEvent::parse)),
    (75689, false, "GameSTriggerMovieFinishedEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerMovieFinishedEvent::parse)),
    (75689, false, "GameSTriggerMovieFunctionEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerMovieFunctionEvent::parse)),
    (75689, false, "GameSTriggerMovieStartedEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerMovieStartedEvent::parse)),
    (75689, false, "GameSTriggerPingEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerPingEvent::parse)),
    (75689, false, "GameSTriggerPlanetMissionLaunchedEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerPlanetMissionLaunchedEvent::parse)),
    (75689, false, "GameSTriggerPlanetMissionSelectedEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerPlanetMissionSelectedEvent::parse)),
    (75689, false, "GameSTriggerPlanetPanelBirthCompleteEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerPlanetPanelBirthCompleteEvent::parse)),
    (75689, false, "GameSTriggerPlanetPanelCanceledEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerPlanetPanelCanceledEvent::parse)),
    (75689, false, "GameSTriggerPlanetPanelDeathCompleteEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerPlanetPanelDeathCompleteEvent::parse)),
    (75689, false, "GameSTriggerPlanetPanelReplayEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerPlanetPanelReplayEvent::parse)),
    (75689, false, "GameSTriggerPortraitLoadedEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerPortraitLoadedEvent::parse)),
    (75689, false, "GameSTriggerProfilerLoggingFinishedEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerProfilerLoggingFinishedEvent::parse)),
    (75689, false, "GameSTriggerPurchaseExitEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerPurchaseExitEvent::parse)),
    (75689, false, "GameSTriggerPurchaseMadeEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerPurchaseMadeEvent::parse)),
    (75689, false, "GameSTriggerPurchasePanelSelectedPurchaseCategoryChangedEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerPurchasePanelSelectedPurchaseCategoryChangedEvent::parse)),
    (75689, false, "GameSTriggerPurchasePanelSelectedPurchaseItemChangedEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerPurchasePanelSelectedPurchaseItemChangedEvent::parse)),
    (75689, false, "GameSTriggerReplySelectedEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerReplySelectedEvent::parse)),
    (75689, false, "GameSTriggerResearchPanelExitEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerResearchPanelExitEvent::parse)),
    (75689, false, "GameSTriggerResearchPanelPurchaseEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerResearchPanelPurchaseEvent::parse)),
    (75689, false, "GameSTriggerResearchPanelSelectionChangedEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerResearchPanelSelectionChangedEvent::parse)),
    (75689, false, "GameSTriggerSkippedEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerSkippedEvent::parse)),
    (75689, false, "GameSTriggerSoundLengthQueryEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerSoundLengthQueryEvent::parse)),
    (75689, false, "GameSTriggerSoundLengthSyncEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerSoundLengthSyncEvent::parse)),
    (75689, false, "GameSTriggerSoundOffsetEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerSoundOffsetEvent::parse)),
    (75689, false, "GameSTriggerSoundtrackDoneEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerSoundtrackDoneEvent::parse)),
    (75689, false, "GameSTriggerTargetModeUpdateEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerTargetModeUpdateEvent::parse)),
    (75689, false, "GameSTriggerTransmissionCompleteEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerTransmissionCompleteEvent::parse)),
    (75689, false, "GameSTriggerTransmissionOffsetEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerTransmissionOffsetEvent::parse)),
    (75689, false, "GameSTriggerVictoryPanelExitEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerVictoryPanelExitEvent::parse)),
    (75689, false, "GameSTriggerVictoryPanelPlayMissionAgainEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTriggerVictoryPanelPlayMissionAgainEvent::parse)),
    (75689, false, "GameSTurnEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSTurnEvent::parse)),
    (75689, false, "GameSUnitClickEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSUnitClickEvent::parse)),
    (75689, false, "GameSUnitHighlightEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSUnitHighlightEvent::parse)),
    (75689, false, "GameSUnpauseGameEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSUnpauseGameEvent::parse)),
    (75689, false, "GameSUserFinishedLoadingEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSUserFinishedLoadingEvent::parse)),
    (75689, false, "GameSUserFinishedLoadingSyncEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSUserFinishedLoadingSyncEvent::parse)),
    (75689, false, "GameSUserOptionsEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSUserOptionsEvent::parse)),
    (75689, false, "GameSaiCommunicateEvent", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSaiCommunicateEvent::parse)),
    (75689, false, "GameSelectionIndexArrayType", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSelectionIndexArrayType::parse)),
    (75689, false, "GameSelectionMaskType", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSelectionMaskType::parse)),
    (75689, false, "GameSuiCoord", |d, o| run_bp(d, o, protocol75689::bit_packed::GameSuiCoord::parse)),
    (75689, false, "GameTAbilLink", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTAbilLink::parse)),
    (75689, false, "GameTAchievementLink", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTAchievementLink::parse)),
    (75689, false, "GameTAchievementTermLink", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTAchievementTermLink::parse)),
    (75689, false, "GameTButtonLink", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTButtonLink::parse)),
    (75689, false, "GameTColorCount", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTColorCount::parse)),
    (75689, false, "GameTColorId", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTColorId::parse)),
    (75689, false, "GameTColorPreference", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTColorPreference::parse)),
    (75689, false, "GameTControlCount", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTControlCount::parse)),
    (75689, false, "GameTControlGroupCount", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTControlGroupCount::parse)),
    (75689, false, "GameTControlGroupId", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTControlGroupId::parse)),
    (75689, false, "GameTControlGroupIndex", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTControlGroupIndex::parse)),
    (75689, false, "GameTControlId", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTControlId::parse)),
    (75689, false, "GameTDifficulty", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTDifficulty::parse)),
    (75689, false, "GameTFixedBits", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTFixedBits::parse)),
    (75689, false, "GameTFixedInt", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTFixedInt::parse)),
    (75689, false, "GameTFixedMiniBitsSigned", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTFixedMiniBitsSigned::parse)),
    (75689, false, "GameTFixedMiniBitsUnsigned", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTFixedMiniBitsUnsigned::parse)),
    (75689, false, "GameTFixedUInt", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTFixedUInt::parse)),
    (75689, false, "GameTFlexLicenseAttributeName", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTFlexLicenseAttributeName::parse)),
    (75689, false, "GameTFlexLicenseAttributeValue", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTFlexLicenseAttributeValue::parse)),
    (75689, false, "GameTFlexLicenseName", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTFlexLicenseName::parse)),
    (75689, false, "GameTHandicap", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTHandicap::parse)),
    (75689, false, "GameTHeroLink", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTHeroLink::parse)),
    (75689, false, "GameTLicense", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTLicense::parse)),
    (75689, false, "GameTLobbySlotCount", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTLobbySlotCount::parse)),
    (75689, false, "GameTLobbySlotId", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTLobbySlotId::parse)),
    (75689, false, "GameTMapCoordFixedBits", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTMapCoordFixedBits::parse)),
    (75689, false, "GameTPlayerCount", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTPlayerCount::parse)),
    (75689, false, "GameTPlayerId", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTPlayerId::parse)),
    (75689, false, "GameTPlayerLogoIndex", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTPlayerLogoIndex::parse)),
    (75689, false, "GameTQueryId", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTQueryId::parse)),
    (75689, false, "GameTReward", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTReward::parse)),
    (75689, false, "GameTSelectionCount", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTSelectionCount::parse)),
    (75689, false, "GameTSelectionIndex", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTSelectionIndex::parse)),
    (75689, false, "GameTSubgroupCount", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTSubgroupCount::parse)),
    (75689, false, "GameTSubgroupIndex", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTSubgroupIndex::parse)),
    (75689, false, "GameTSubgroupPriority", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTSubgroupPriority::parse)),
    (75689, false, "GameTSyncChecksum", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTSyncChecksum::parse)),
    (75689, false, "GameTSyncValue", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTSyncValue::parse)),
    (75689, false, "GameTTeamCount", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTTeamCount::parse)),
    (75689, false, "GameTTeamId", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTTeamId::parse)),
    (75689, false, "GameTTriggerSoundTag", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTTriggerSoundTag::parse)),
    (75689, false, "GameTTriggerThreadTag", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTTriggerThreadTag::parse)),
    (75689, false, "GameTUnitLink", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTUnitLink::parse)),
    (75689, false, "GameTUnitTag", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTUnitTag::parse)),
    (75689, false, "GameTaiBuild", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTaiBuild::parse)),
    (75689, false, "GameTuiCoordX", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTuiCoordX::parse)),
    (75689, false, "GameTuiCoordY", |d, o| run_bp(d, o, protocol75689::bit_packed::GameTuiCoordY::parse)),
    (75689, false, "Int16", |d, o| run_bp(d, o, protocol75689::bit_packed::Int16::parse)),
    (75689, false, "Int32", |d, o| run_bp(d, o, protocol75689::bit_packed::Int32::parse)),
    (75689, false, "Int64", |d, o| run_bp(d, o, protocol75689::bit_packed::Int64::parse)),
    (75689, false, "Int8", |d, o| run_bp(d, o, protocol75689::bit_packed::Int8::parse)),
    (75689, false, "MEventData", |d, o| run_bp(d, o, protocol75689::bit_packed::MEventData::parse)),
    (75689, false, "ReplaySGameUserId", |d, o| run_bp(d, o, protocol75689::bit_packed::ReplaySGameUserId::parse)),
    (75689, false, "ReplaySInitData", |d, o| run_bp(d, o, protocol75689::bit_packed::ReplaySInitData::parse)),
    (75689, false, "SUserInitialData", |d, o| run_bp(d, o, protocol75689::bit_packed::SUserInitialData::parse)),
    (75689, false, "SVarUint32", |d, o| run_bp(d, o, protocol75689::bit_packed::SVarUint32::parse)),
    (75689, false, "SVersion", |d, o| run_bp(d, o, protocol75689::bit_packed::SVersion::parse)),
    (75689, false, "Smd5", |d, o| run_bp(d, o, protocol75689::bit_packed::Smd5::parse)),
    (75689, false, "TRaceCount", |d, o| run_bp(d, o, protocol75689::bit_packed::TRaceCount::parse)),
    (75689, false, "TRaceId", |d, o| run_bp(d, o, protocol75689::bit_packed::TRaceId::parse)),
    (75689, false, "TRacePreference", |d, o| run_bp(d, o, protocol75689::bit_packed::TRacePreference::parse)),
    (75689, false, "TTeamPreference", |d, o| run_bp(d, o, protocol75689::bit_packed::TTeamPreference::parse)),
    (75689, false, "TUserCount", |d, o| run_bp(d, o, protocol75689::bit_packed::TUserCount::parse)),
    (75689, false, "TUserId", |d, o| run_bp(d, o, protocol75689::bit_packed::TUserId::parse)),
    (75689, false, "Uint14", |d, o| run_bp(d, o, protocol75689::bit_packed::Uint14::parse)),
    (75689, false, "Uint16", |d, o| run_bp(d, o, protocol75689::bit_packed::Uint16::parse)),
    (75689, false, "Uint22", |d, o| run_bp(d, o, protocol75689::bit_packed::Uint22::parse)),
    (75689, false, "Uint32", |d, o| run_bp(d, o, protocol75689::bit_packed::Uint32::parse)),
    (75689, false, "Uint6", |d, o| run_bp(d, o, protocol75689::bit_packed::Uint6::parse)),
    (75689, false, "Uint64", |d, o| run_bp(d, o, protocol75689::bit_packed::Uint64::parse)),
    (75689, false, "Uint8", |d, o| run_bp(d, o, protocol75689::bit_packed::Uint8::parse)),
];
