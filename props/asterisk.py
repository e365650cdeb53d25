"""What Asterisk calls its applications and functions."""

APPS = {
    '<builtin>':
        'Answer Background Bridge Busy Congestion '
        'ExecIfTime Goto GotoIf GotoIfTime Hangup ImportVar '
        'NoOp Proceeding Progress ResetCDR Ringing SayAlpha '
        'SayDigits SayNumber SayPhonetic Set SetAMAFlags '
        'SetGlobalVar Wait WaitExten',
    'app_agent_pool': 'AgentLogin AgentRequest',
    'app_authenticate': 'Authenticate',
    'app_bridgeaddchan': 'BridgeAdd',
    'app_bridgewait': 'BridgeWait',
    'app_cdr': 'NoCDR',
    'app_celgenuserevent': 'CELGenUserEvent',
    'app_chanisavail': 'ChanIsAvail',
    'app_channelredirect': 'ChannelRedirect',
    'app_chanspy': 'ChanSpy ExtenSpy',
    'app_confbridge': 'ConfBridge',
    'app_controlplayback': 'ControlPlayback',
    'app_db': 'DBdeltree',
    'app_dial': 'Dial RetryDial',
    'app_directed_pickup': 'Pickup PickupChan PickupOld1v4',
    'app_directory': 'Directory',
    'app_dumpchan': 'DumpChan',
    'app_echo': 'Echo',
    'app_exec': 'Exec ExecIf TryExec',
    'app_followme': 'FollowMe',
    'app_forkcdr': 'ForkCDR',
    'app_macro': 'Macro MacroExclusive MacroExit MacroIf',
    'app_meetme':
        'MeetMe MeetMeAdmin MeetMeChannelAdmin MeetMeCount '
        'SLAStation SLATrunk',
    'app_milliwatt': 'Milliwatt',
    'app_mixmonitor': 'MixMonitor StopMixMonitor',
    'app_mysql': 'MYSQL',
    'app_originate': 'Originate',
    'app_page': 'Page',
    'app_playback': 'Playback',
    'app_playtones': 'PlayTones StopPlayTones',
    'app_queue':
        'AddQueueMember PauseQueueMember Queue QueueLog '
        'RemoveQueueMember UnpauseQueueMember',
    'app_read': 'Read',
    'app_record': 'Record',
    'app_sayunixtime': 'DateTime SayUnixTime',
    'app_senddtmf': 'SendDTMF',
    'app_setcallerid': 'SetCallerID SetCallerPres',
    'app_softhangup': 'SoftHangup',
    'app_stack': 'Gosub GosubIf Return StackPop',
    'app_stasis': 'Stasis',
    'app_system': 'System TrySystem',
    'app_userevent': 'UserEvent',
    'app_verbose': 'Log Verbose',
    'app_voicemail':
        'MailboxExists VMAuthenticate VMSayName VoiceMail '
        'VoiceMailMain VoiceMailPlayMsg',
    'app_waituntil': 'WaitUntil',
    'app_while': 'ContinueWhile EndWhile ExitWhile While',
    'chan_sip': 'SIPAddHeader SIPDtmfMode SIPRemoveHeader',
    'func_odbc': 'ODBCFinish',
    'res_agi': 'AGI DeadAGI EAGI',
    'res_fax': 'ReceiveFAX SendFAX',
    'res_musiconhold':
        'MusicOnHold SetMusicOnHold StartMusicOnHold '
        'StopMusicOnHold WaitMusicOnHold',
}
FUNCS = {
    '<builtin>':
        'AMI_CLIENT EXCEPTION FEATURE FEATUREMAP MESSAGE '
        'MESSAGE_DATA TESTTIME',
    'app_confbridge': 'CONFBRIDGE CONFBRIDGE_INFO',
    'app_queue':
        'QUEUE_EXISTS QUEUE_MEMBER QUEUE_MEMBER_COUNT '
        'QUEUE_MEMBER_LIST QUEUE_MEMBER_PENALTY '
        'QUEUE_VARIABLES QUEUE_WAITING_COUNT',
    'app_stack': 'LOCAL LOCAL_PEEK STACK_PEEK',
    'chan_pjsip':
        'PJSIP_DIAL_CONTACTS PJSIP_DTMF_MODE '
        'PJSIP_MEDIA_OFFER PJSIP_MOH_PASSTHROUGH '
        'PJSIP_PARSE_URI PJSIP_SEND_SESSION_REFRESH',
    'chan_sip': 'CHECKSIPDOMAIN SIPCHANINFO SIPPEER SIP_HEADER',
    'func_audiohookinherit': 'AUDIOHOOK_INHERIT',
    'func_base64': 'BASE64_DECODE BASE64_ENCODE',
    'func_callerid': 'CALLERID CALLERPRES CONNECTEDLINE REDIRECTING',
    'func_cdr': 'CDR',
    'func_channel': 'CHANNEL CHANNELS MASTER_CHANNEL',
    'func_curl': 'CURL CURLOPT',
    'func_cut': 'CUT SORT',
    'func_db': 'DB DB_DELETE DB_EXISTS DB_KEYS',
    'func_devstate': 'DEVICE_STATE HINT',
    'func_dialgroup': 'DIALGROUP',
    'func_dialplan': 'DIALPLAN_EXISTS VALID_EXTEN',
    'func_enum': 'ENUMLOOKUP ENUMQUERY ENUMRESULT TXTCIDNAME',
    'func_env': 'ENV FILE FILE_COUNT_LINE FILE_FORMAT STAT',
    'func_global': 'GLOBAL SHARED',
    'func_groupcount': 'GROUP GROUP_COUNT GROUP_LIST GROUP_MATCH_COUNT',
    'func_logic': 'EXISTS IF IFTIME IMPORT ISNULL SET',
    'func_math': 'DEC INC MATH',
    'func_md5': 'MD5',
    'func_odbc': 'ODBC_FETCH SQL_ESC',
    'func_pjsip': 'PJSIP_AOR PJSIP_CONTACT PJSIP_ENDPOINT',
    'func_rand': 'RAND',
    'func_shell': 'SHELL',
    'func_strings':
        'ARRAY CSV_QUOTE EVAL FIELDNUM FIELDQTY FILTER HASH '
        'HASHKEYS KEYPADHASH LEN LISTFILTER PASSTHRU POP '
        'PUSH QUOTE REGEX REPLACE SHIFT STRFTIME STRPTIME '
        'STRREPLACE TOLOWER TOUPPER UNSHIFT',
    'func_talkdetect': 'TALK_DETECT',
    'func_timeout': 'TIMEOUT',
    'func_uri': 'URIDECODE URIENCODE',
    'func_volume': 'VOLUME',
    'res_fax': 'FAXOPT',
    'res_pjsip': 'PJSIP_HEADER',
}


def by_name(table):
    out = {}
    for module in table:
        for name in table[module].split(' '):
            out[name] = module
    return out


APP_MODULE = by_name(APPS)
FUNC_MODULE = by_name(FUNCS)
