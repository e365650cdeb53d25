"""The properties: text for properties.jsonl and MANIFEST.json."""
ALL = []


def P(id, title, statement, over, text, why, files, mech, level_note=''):
    ALL.append(dict(id=id, title=title, statement=statement, over=over,
                    text=text, why=why, files=files, mech=mech,
                    level_note=level_note))


FILE, CONF = 'asterisklint/file.py', 'asterisklint/config.py'
OBJ, WS = 'asterisklint/configobj.py', 'asterisklint/configws.py'
PAT = 'asterisklint/pattern.py'

P('F01', 'Comments and backslash escapes are split as Asterisk does',
  'For every line, the data and the comment that the file layer yields are '
  'what Asterisk would see: a semicolon starts the comment unless a backslash '
  'stands right before it, in which case the two become one semicolon, and '
  'blanks before the comment belong to the comment. Trailing whitespace and a '
  'comment glued to data are reported on that line, and nothing else is.',
  ['inputs'], 'every line of text',
  'The tests feed a dozen hand-written lines; escapes interact with each '
  'other and with whitespace at every position.',
  [FILE], [('comment splitting', 'file.py: AsteriskCommentReader')])
P('F02', 'Line-ending problems are judged per file',
  'Whether a file is DOS or UNIX is decided by its own first line; a line '
  'ending that differs, a trailing CRLF in a DOS file and a missing final LF '
  'in a UNIX file are each reported exactly where they are, also when files '
  'include each other. The line terminator never reaches the data.',
  ['inputs', 'histories'], 'every mix of line endings, in main and included '
  'files, in every order of entering and leaving them',
  'The tests have one file with one kind of mistake at a time.',
  [FILE], [('per file state', 'file.py: FileformatReader')])
P('F03', 'Any byte string is decoded; bad UTF-8 and control bytes reported',
  'Reading never fails on any bytes: a line that is valid UTF-8 yields '
  'exactly that text, any other line yields some text plus one error at that '
  'line. A line with control characters other than tab gets one warning.',
  ['inputs'], 'every byte string', 'The tests have two sample encodings.',
  [FILE], [('decoding', 'file.py: EncodingReader'),
           ('control characters', 'file.py: NoCtrlReader')])
P('F04', 'Included files are read in place, with true positions',
  'The content of an included file comes exactly at the place of the include '
  'line, names are resolved relative to the including file, and every item '
  'carries the file and line it stands in. A missing file is reported for '
  'include, not for tryinclude, and reading goes on after it.',
  ['inputs', 'histories'], 'every arrangement of includes over lines',
  'The tests include one file once.',
  [CONF, FILE], [('reader stack', 'file.py: BinFileReader'),
                 ('preprocessor', 'config.py: ConfigParser.preprocessor')])
P('C01', 'Every line is taken for exactly what Asterisk takes it for',
  'Each line yields exactly one item - section header, setting with = or =>, '
  'blank - or is a directive, or is reported as a bad line; name, value, '
  'arrow and comment flag are those of the line, leading and trailing blanks '
  'excluded. Whitespace style is reported if and only if the line breaks it, '
  'and an indented "same" is allowed.',
  ['inputs'], 'every line of text',
  'The tests show well-formed lines; classification is decided by a list of '
  'regular expressions whose overlaps no sample covers.',
  [CONF, OBJ], [('classification', 'config.py: ConfigParser.regexes'),
                ('settings', 'configobj.py: Varset.__init__')])
P('C02', 'Preprocessor directives are parsed and acted on exactly',
  'A directive line opens exactly the file that it names, relative to the '
  'current file, with its quotes removed, or opens nothing: exec only warns, '
  'a malformed directive only gives an error. Bad quoting, odd whitespace and '
  'indentation are reported if and only if present, and reading continues '
  'with the next line.',
  ['inputs'], 'every text after (and every misspelling of) a directive',
  'The tests have a few well-formed directives.',
  [CONF], [('preprocessor', 'config.py: ConfigParser.preprocessor')])
P('C03', 'Vertical whitespace is judged per file and loses nothing',
  'The whitespace checker passes all sections and settings on unchanged and '
  'in order. Blank lines at the begin and end of a file, too many between '
  'settings or sections and too few before a section are reported exactly '
  'where the rules say, for every file on its own.',
  ['inputs', 'histories'], 'every sequence of lines, also spread over an '
  'including and an included file',
  'The tests try single gaps; the checker delays and regroups items.',
  [WS], [('per file state', 'configws.py: VswContext'),
         ('file switches', 'configws.py: VswContextStack')])
P('C04', 'Every setting ends up in the section it stands in',
  'The sections come out in file order, each with exactly the settings that '
  'follow its header - across included files too - with name, value, arrow '
  'and position intact. A setting before any section is reported and dropped.',
  ['inputs', 'histories'], 'every sequence of lines',
  'The tests have two sections and no includes.',
  [CONF, OBJ], [('aggregation', 'config.py: ConfigAggregator')])
P('P01', 'A pattern matches exactly the extensions that Asterisk matches',
  'For every name or pattern and every extension, the answer to "does it '
  'match" is that of Asterisk: X, Z, N and sets match one character, a '
  'period one or more, an exclamation mark zero or more, everything else '
  'itself, and the lengths must agree. Dashes are ignored, and malformed '
  'patterns do not abort.',
  ['inputs'], 'every pattern and every extension',
  'There is no test of matching at all beyond a few dialplans.',
  [PAT], [('parsing', 'pattern.py: Pattern.parse_pattern'),
          ('matching', 'pattern.py: Pattern.matches_extension')])
P('P02', 'The canonical form of a pattern is the same pattern',
  'The suggested canonical form matches exactly the same extensions, is its '
  'own canonical form, and is recognised as such. A pattern is called '
  'non-canonical if and only if it differs from that form in more than '
  'dashes.',
  ['inputs'], 'every pattern', 'The tests list a few dozen pairs.',
  [PAT], [('canonical form', 'pattern.py: Pattern.canonical_pattern'),
          ('recognition', 'pattern.py: Pattern.is_canonical')])
P('P03', 'Patterns sort in the order in which Asterisk tries them',
  'Names come before patterns; patterns compare position by position, the '
  'narrowest set first, then the lowest first character, then period, '
  'exclamation mark and end. The order is total, two spellings are equal if '
  'and only if they denote the same items, and equal ones hash alike.',
  ['inputs'], 'every pair of patterns', 'The tests list forty pairs.',
  [PAT], [('values', 'pattern.py: Pattern.parse_range_list'),
          ('comparison', 'pattern.py: Pattern.__lt__, __eq__, __hash__')])
P('P04', 'The example extension of a pattern is matched by that pattern',
  'For every name or pattern that some extension can match, the generated '
  'sample extension is matched by it.',
  ['inputs'], 'every pattern', 'No test looks at generated examples.',
  [PAT], [('example', 'pattern.py: Pattern.example')])
DP = 'asterisklint/dialplan.py'
P('D01', 'Every extension line is taken apart as Asterisk does',
  'A line of a context yields the extension, priority, label, application '
  'and hint that Asterisk reads from it, with blanks around the parts '
  'dropped; anything else (no priority, an invalid label or priority, an '
  'unknown kind of setting) is reported at that line and yields nothing.',
  ['inputs'], 'every value of exten, same, include and so on',
  'The tests hold a dozen hand-written lines.',
  [DP], [('settings', 'dialplan.py: DialplanVarset.from_varset'),
         ('extensions', 'dialplan.py: Extension, Label')])
P('D02', 'Priorities are numbered and checked as Asterisk does',
  'The priority n is one more than the last priority in the file, "same" '
  'takes the pattern of the line before it, and each extension of a context '
  'holds the lines in file order. Priorities missing, invalid, out of order '
  'or used twice for the same pattern, however spelled, are reported at '
  'that line and at no other.',
  ['histories'], 'every sequence of extension lines, also with contexts that '
  'are opened again',
  'The state spans lines and contexts; the tests try one mistake at a time.',
  [DP], [('numbering', 'dialplan.py: DialplanContext.add')])
P('D03', 'A label names one place per extension; a second one is reported',
  'A label is kept with the extension and priority it stands on. The same '
  'label on another priority of the same extension of the same context is '
  'reported once, at the later line, with the first one as reference; labels '
  'of other patterns or contexts never clash.',
  ['histories'], 'every sequence of labelled lines',
  'One fixed example in the tests; patterns may be spelled in many ways.',
  [DP], [('labels', 'dialplan.py: DialplanContext.add')])
P('D04', 'Every goto is looked up as Asterisk would look it up',
  'For every dialplan and every goto: the context exists and, by itself or '
  'through the contexts it includes (also in circles), holds an extension '
  'that matches and has the priority or label; only then is nothing '
  'reported. Each failure is reported once, as what is wrong, at the line of '
  'the goto. Parts that hold variables are matched by what they could become.',
  ['inputs', 'histories'], 'every dialplan and destination',
  'A destination depends on the whole dialplan; the tests have three small '
  'ones.',
  [DP, 'asterisklint/application.py'],
  [('goto', 'dialplan.py: Dialplan.walk_jump_destinations and users'),
   ('lookup', 'dialplan.py: DialplanContext.has_label, '
    'match_pattern')])
P('D06', 'The shown dialplan has every extension in the order of Asterisk',
  'The dialplan is shown as Asterisk shows it: every context, its extensions '
  'by pattern order and priority with the pattern at the first of each, its '
  'labels and includes, nothing lost and nothing twice, in either order of '
  'contexts.',
  ['inputs'], 'every dialplan', 'The tests show one dialplan.',
  [DP], [('printing', 'dialplan.py: Dialplan.format_as_dialplan_show')])
P('D07', 'The general and globals contexts are placed and unique',
  'Settings of [general] and [globals] go to those two; opened twice, out of '
  'place or missing is reported at the header concerned (with the first one) '
  'and nowhere else. A second globals is dropped. All other contexts are unaffected.',
  ['histories'], 'every sequence of section headers',
  'The tests have one order each.',
  [DP], [('aggregation', 'dialplan.py: DialplanAggregator')])
P('D08', 'A context opened again continues; its contents are kept apart',
  'A context that is opened again silently continues the first one, '
  'numbering included, in whatever file. Includes, extensions and '
  'unimplemented settings are each recorded or reported at their own line, '
  'in order.',
  ['histories'], 'every sequence of openings and settings',
  'The state lives across sections and files.',
  [DP, OBJ], [('contexts', 'dialplan.py: DialplanAggregator, '
               'DialplanContext')])
VAR, VF = 'asterisklint/variable.py', 'asterisklint/varfun.py'
FN, EX = 'asterisklint/function.py', 'asterisklint/expression.py'
AB = 'asterisklint/app/base.py'
P('V01', 'Variables and expressions are found and nested exactly',
  'For every text, the ${variables} and $[expressions] found are those whose '
  'brackets enclose them, nested to any depth, and the text between is kept '
  'as it is; printing gives the same text back. An unclosed bracket and an '
  'empty or illegal variable name are reported, nothing else is, and each '
  'variable used is recorded under its name.',
  ['inputs'], 'every text', 'The tests list two dozen texts.',
  [VF, VAR, EX], [('parser', 'varfun.py: VarLoader.parse_variables'),
                  ('parts', 'variable.py: Var')])
P('V02', 'Substrings ${x:start:length} are read as Asterisk reads them',
  'The start and length after a colon, negative or not, or made of '
  'variables, are kept and applied as Asterisk does; a third one, or one '
  'that is no number, is reported as that. Nothing aborts, whatever the '
  'digits.',
  ['inputs'], 'every text after the colon, every start, length and value',
  'The tests have a handful of slices.',
  [VF, VAR], [('slices', 'variable.py: SliceMixin, VarSlice, VarDynSlice')])
P('V04', 'A text with variables matches all values it could take',
  'A text with variables in it is said to match a value if and only if some '
  'contents of the variables would make it that value.',
  ['inputs'], 'every text with variables and every value',
  'No test matches variables with text around them.',
  [VAR], [('matching', 'variable.py: Var.could_match')])
P('V05', 'Unbalanced quotes and brackets are reported, others are not',
  'Arguments of an application or function are called unbalanced if and '
  'only if, outside of quotes, some bracket has no partner of its kind or a '
  'quote is not closed; once, at that line.',
  ['inputs'], 'every text', 'The tests list six texts.',
  [VAR, AB, FN], [('balance', 'variable.py: variable_check_balance')])
P('V06', 'Function calls are taken apart as Asterisk does',
  'In ${NAME(args):start:length} the name, the arguments up to the last '
  'parenthesis and the tail are told apart; an unknown name, a name in the '
  'wrong case, missing parentheses and a bad tail are each reported as that; '
  'names made of variables are only warned about. Text of a valid call is '
  'never lost.',
  ['inputs'], 'every function name, arguments and tail',
  'The tests have a dozen calls; names of functions are looked up in a '
  'table.',
  [FN, VF], [('read', 'function.py: ReadFunc; varfun.py: FuncLoader.process_read_function')])
P('V07', 'Assignments are split at the first = and their target is checked',
  'Set(x=y) and ${SET(x=y)} are split at the first equals sign; no equals '
  'sign, no data, blanks in the name and an unknown or wrongly written '
  'function on the left are each reported once as that, and nothing else is.',
  ['inputs'], 'every text of an assignment',
  'The tests have five assignments.',
  [VF, FN],
  [('assignment', 'varfun.py: VarLoader.parse_assignment, FuncLoader.process_write_function')])
APP = 'asterisklint/application.py'
BI = 'asterisklint/app/vall/builtin.py'
STK = 'asterisklint/app/vall/app_stack.py'
P('A01', 'An application line is split into name and data as Asterisk does',
  'In name(data) the name ends at the first parenthesis, the data is what '
  'lies between it and a parenthesis at the end; blanks around the name, '
  'missing parentheses, a missing name and data left open are each reported '
  'once, and a valid application is not.',
  ['inputs'], 'every application text', 'The tests have four texts.',
  [APP], [('split', 'application.py: App.split_app_data')])
P('A02', 'Arguments are separated as ast_app_separate_args does',
  'For every text the arguments are those of Asterisk: delimiters inside '
  'parentheses, brackets and quotes or behind a backslash do not split; '
  'quotes and backslashes are removed from standard arguments and kept in '
  'raw ones. Variables pass through whole and in place.',
  ['inputs'], 'every text, delimiter and mode', 'The tests list ten texts.',
  [AB], [('separation', 'app/base.py: AppBase.separate_args')])
P('A03', 'Applications are found by name; case and spelling are reported',
  'A known application in its own case is accepted, in another case it is '
  'reported with the proper name, and any other name is reported as missing. '
  'Of the two spellings of Background the first one used becomes proper.',
  ['inputs', 'histories'], 'every name, every sequence of spellings',
  'The tests try four names.',
  [APP, AB, BI], [('lookup', 'application.py: AppLoader.get; app/base.py: '
                   'AppBase.check_availability'),
                  ('spelling', 'builtin.py: Background')])
P('A04', 'Argument counts, options and pipes are checked exactly',
  'Too few or too many arguments, options that do not exist or come twice '
  '(the arguments of options aside), a wrong type of Originate and a pipe '
  'for a comma are each reported once, with the value concerned; anything '
  'else is not, and variables are given the benefit of the doubt.',
  ['inputs'], 'every data of the applications with declared arguments',
  'The tests have one example per message.',
  [AB, 'asterisklint/app/vall/app_voicemail.py',
   'asterisklint/app/vall/app_originate.py'],
  [('arguments', 'app/base.py: MinMaxArgsMixin, AppArgsMixin, AppOptions, '
    'NoPipeDelimiterMixin')])
P('A05', 'The destination of a jump is read as Asterisk reads it',
  'Goto, Gosub and both sides of GotoIf and GosubIf yield [[context,]exten,]'
  'priority with missing or empty parts filled in from where they stand, '
  'arguments of Gosub aside; if that place does not exist it is reported '
  'under exactly those names.',
  ['inputs'], 'every destination text', 'The tests have three gotos.',
  [AB, BI, STK],
  [('destination', 'app/base.py: JumpDestinationMixin; app_stack.py: '
    '_GosubMixin; builtin.py: Goto, GotoIf'),
   ('context', 'dialplan.py: DialplanContext.add')])
P('A06', 'Conditions <cond>?<one>:<other> are checked exactly',
  'An If-style application without an action, with too many, in the comma '
  'style of old, with an empty condition or a constant one is reported once '
  'as that; otherwise nothing is.',
  ['inputs'], 'every data of GotoIf, GosubIf, ExecIf and GotoIfTime',
  'The tests have ten conditions.',
  [AB], [('conditions', 'app/base.py: IfStyleApp, VarCondIfStyleApp')])
P('A07', 'An application inside ExecIf is checked like one that stands alone',
  'For every application, what is reported about it and about where it '
  'jumps is the same whether it stands alone or as first or second action '
  'of an ExecIf, nested ones and the comma style of old included.',
  ['inputs'], 'every application text',
  'It relates two uses of the same text; the tests have two ExecIfs.',
  ['asterisklint/app/vall/app_exec.py', APP],
  [('recursion', 'app_exec.py: ExecIf')])
ODBC, DEFS = 'asterisklint/func_odbc.py', 'asterisklint/defines.py'
MU = 'asterisklint/mainutil.py'
P('O01', 'Keys of func_odbc functions are kept and reported exactly',
  'For every sequence of keys: unknown and repeated keys are refused and '
  'reported (with the first one), keys after their place, the legacy read '
  'and write, a semicolon at the end of SQL, an arrow, a key before any '
  'function, a function without SQL and one whose name is not proper are '
  'each reported once at that line, nothing else is, and the rest is kept.',
  ['inputs', 'histories'], 'every sequence of keys, every key, value and '
  'name', 'The tests have one file per message.',
  [ODBC], [('keys', 'func_odbc.py: OdbcFunction.add, check_order'),
           ('functions', 'func_odbc.py: OdbcFunction.finalize, '
            'FuncOdbcAggregator')])
P('O02', 'Functions defined in func_odbc.conf can be used, and only those',
  'A function with SQL is known in the dialplan as PREFIX_NAME (ODBC_NAME '
  'without a prefix), for reading and writing; another case is reported with '
  'the proper name, others as missing. The file is the one next to the '
  'dialplan, if any, or the one given, or none; statements are those of the '
  'modern keys before those of the legacy ones.',
  ['inputs', 'histories'], 'every prefix, name and use; every place of the '
  'files', 'The tests register one function.',
  [ODBC, MU, VF], [('registration', 'func_odbc.py: '
                    'OdbcFunction.finalize_register, get_queries'),
                   ('which file', 'mainutil.py: load_func_odbc_functions'),
                   ('lookup', 'varfun.py: FuncLoader')])
P('O03', 'func_odbc-annotate shows every function and statement once',
  'All functions are shown in the order of the file by the name that the '
  'dialplan knows them by, with their statements, insert, read and write, '
  'each as the SQL formatter gives it and ended by one semicolon; a SELECT '
  'that reads comes with its columns, numbered, by alias if there is one. '
  'No messages are printed.',
  ['inputs', 'histories'], 'every statement, name, prefix and line between',
  'There are no tests of the command.',
  [ODBC, 'asterisklint/commands/func_odbc-annotate.py'],
  [('output', 'commands/func_odbc-annotate.py: Main.handle_args'),
   ('columns', 'func_odbc.py: OdbcQuery.select_columns')])
P('M01', 'Messages are muted, recorded and printed as documented',
  'A message is muted exactly if ALINT_IGNORE lists its name or a prefix of '
  'it that ends in an underscore, or all are. It is recorded and passed to '
  'the callbacks of its own kind either way, and otherwise printed once as '
  'file:line NAME: text, with the line and the previous occurrence if asked '
  'for.', ['inputs', 'histories'], 'every ALINT_IGNORE, place, text and line',
  'The tests mute one name.',
  [DEFS], [('muting', 'defines.py: MessageDefManager.__new__'),
           ('printing', 'defines.py: MessageDefManager.on_message')])
P('M02', 'The exit status of the checks tells whether anything was reported',
  'dialplan-check and func_odbc-check return 1 exactly if they printed a '
  'message, whatever was muted and wherever it came from: the file, its '
  'jumps, or the func_odbc.conf that goes with it.',
  ['inputs'], 'every dialplan and set of muted messages',
  'The tests do not run the commands.',
  ['asterisklint/commands/dialplan-check.py',
   'asterisklint/commands/func_odbc-check.py', DEFS],
  [('status', 'commands/dialplan-check.py: Main.handle_args'),
   ('muting', 'defines.py: MessageDefManager.on_message')])
P('M03', 'Messages quote the dialplan as it is written',
  'For every line, whatever a message quotes from it (application, '
  'function, arguments, variable, priority, pattern) is there literally, '
  'variables in it included, and no internals are shown.',
  ['inputs'], 'every application, function and keyword',
  'Tests compare names of messages, not their text.',
  [AB, VF, VAR, DP], [('text', 'defines.py: MessageDefManager.on_message; '
                       'variable.py: Var.__str__ and __repr__')])
P('R01', 'Any dialplan is read to the end, and messages say where',
  'For every line, in every section, and every argument of every application '
  'and function, linting ends without an exception, its jumps can be checked '
  'and it can be shown; each message is about a line of the file and has '
  'that line with it.', ['inputs'], 'every dialplan',
  'The tests have well-formed lines but for what they test.',
  [DP, APP, AB, VF, CONF, FILE],
  [('pipeline', '__init__.py: FileDialplanParser; dialplan.py: Dialplan')])
P('R02', 'Any func_odbc.conf or other configuration is read to the end',
  'For every line in every place, reading ends without an exception; each '
  'message is about a line of the file and has that line with it.',
  ['inputs'], 'every configuration file', 'The tests have well-formed lines.',
  [ODBC, CONF, OBJ],
  [('pipeline', '__init__.py: FileFuncOdbcParser, FileConfigParser')])
P('I01', 'ident-scan lists every identifier and those that are alike',
  'ident-scan lists every context, label and variable that the dialplan '
  'names once, a variable with its number of uses and files (the name of '
  '${name:1:2} is name; dynamic names do not count). It then lists, for each '
  'identifier, those next to it by name or by length that differ by at most '
  'two edits, but not just in being all upper and all lower case, nor ARGn; '
  'its status is 1 exactly if there are any.',
  ['inputs'], 'every text with variables, and every two or three '
  'identifiers', 'The tests do not run the command.',
  ['asterisklint/commands/ident-scan.py', VF, DP],
  [('variables', 'varfun.py: VarLoader.count_var'),
   ('alike', 'commands/ident-scan.py: Main.print_distance')])
P('L01', 'modules-show lists exactly what the dialplan uses',
  'For every dialplan, modules-show lists each application and function in '
  'use, also nested ones and those in any case, once, under the module that '
  'provides it, one load line for each of these modules but the builtin '
  'ones, and the unknown names; its status is 1 exactly if there are any. '
  'Functions of the func_odbc.conf that goes with it are known.',
  ['inputs'], 'every combination of applications and functions, and their '
  'names', 'The tests do not run the command.',
  ['asterisklint/commands/modules-show.py', APP, VF, MU],
  [('output', 'commands/modules-show.py: Main.handle_args'),
   ('use', 'application.py: AppLoader.used_apps; varfun.py: '
    'FuncLoader.used_funcs')])
P('L02', 'The command that is named is run; others are refused',
  'The command that is run is the one of that name in the first place of '
  'the path, that of the user first; it gets the other arguments, and its '
  'status is returned. A name that is invalid or not there, or a file '
  'without an entry point, gives a message and status 1. ls lists every '
  'usable name once, with its place and its description, wrapped.',
  ['inputs'], 'every name and every set of files', 'The tests do not run it.',
  ['asterisklint/main.py'],
  [('run', 'main.py: main, load_command'),
   ('list', 'main.py: list_commands, wrap')])
P('T01', 'Files are rewritten completely or stay as they were',
  'When a script rewrites files, each line that has an issue is passed on '
  'to be changed, for each of its issues, and all others are kept byte for '
  'byte; mode, owner and links are kept. If anything fails or the process '
  'ends at any point, every file is as before or completely changed, and '
  'after a failure nothing else is left. Without a y nothing changes.',
  ['inputs', 'faults', 'crash points'], 'every file, set of issues, and '
  'failure or end at any operation', 'There are no tests of it.',
  ['asterisklint/helper/mutator.py'],
  [('rewrite', 'helper/mutator.py: FileMutatorBase.process_file')])
P('T02', 'The rewriting scripts change what they are for, nothing else',
  'make_patterns_canonical puts the canonical form in the place of each '
  'pattern that is reported and changes no other byte, in whatever file the '
  'pattern is; after it nothing more is reported. convert_dp_104_to_1100 '
  'turns each old style ExecIf(cond,app,args) into ExecIf(cond?app(args)), '
  'also nested ones, or stops without changing the file. Only y starts them.',
  ['inputs'], 'every pattern, way of writing and old style ExecIf',
  'There are no tests of them.',
  ['contrib/make_patterns_canonical.py', 'contrib/convert_dp_104_to_1100.py',
   'asterisklint/helper/mutator.py'],
  [('patterns', 'contrib/make_patterns_canonical.py: process_issue'),
   ('ExecIf', 'contrib/convert_dp_104_to_1100.py: process_issue')])
P('W01', 'The web check answers each request for itself',
  'The answer to a request has each message of linting that dialplan once, '
  'by line, and nothing else, whatever requests came before, whether they '
  'failed or not. Include files, bodies over 64 KiB and threads are refused; '
  'nothing is printed.', ['inputs', 'histories'],
  'every line, and every sequence of requests', 'There are no tests of it.',
  ['web/wsgi.py'],
  [('answer', 'web/wsgi.py: DialplanCheck.on_post, collect_messages'),
   ('refusal', 'web/wsgi.py: UploadedFileOpener, max_body')])
P('N01', 'VoIPGRID files: folded lines, nested comments, replaced sections',
  'With the vg command, a line that starts with a blank continues the one '
  'before it; a semicolon starts a comment only outside quotes and '
  'parentheses; no text is lost and each line has the place it started at, '
  'also around includes. A section takes the place of earlier ones of its '
  'name, in dialplans, func_odbc and other configuration. The command named '
  'is run with the rest of the arguments, or refused if there is none.',
  ['inputs'], 'every line, indentation, place of an include and section name',
  'There are no tests of it.', ['contrib/commands/vg.py'],
  [('reading', 'contrib/commands/vg.py: VoipgridCommentReader'),
   ('sections', 'contrib/commands/vg.py: on_context of the three parsers')])
