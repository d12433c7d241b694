import json
def P(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a}
M="pyflp/"
props=[
P("R01","Loading and saving without edits reproduces the file byte for byte",
 "For every well-formed file of any supported format (project, score, channel, plugin, generator, effect, insert preset), loading it and saving it without changes writes exactly the bytes that were read, header included. This holds for unknown events, payloads that are longer than the known layout or, where its fields are optional, end early, unusual but legal encodings of flags, strings and floats, and any channel count in the header; reading attributes in between changes nothing.",
 ["inputs"],"all well-formed FLP byte streams: any header format/PPQ/channel count, any sequence of known and unknown events with any payload of legal framing",
 "No existing test saves a file at all, and a sample project only exercises the payload sizes and values FL Studio 20.8 happened to write.",
 [M+"__init__.py",M+"_events.py",M+"_adapters.py"],
 [("parse / save",M+"__init__.py"),("EventBase.__bytes__, ListEventBase, StructEventBase",M+"_events.py"),("Log2, LogNormal, FourByteBool adapters",M+"_adapters.py")],["bytes written by save"]),
P("R02","Header validation accepts exactly the valid headers",
 "A file is accepted only if it starts with the header magic, a header size of 6, a known format number and an allowed PPQ, followed by the data magic and a non-zero data size that matches the real file size; anything else, including a file cut short inside the header, is rejected with the header-corruption error and never half-loaded. An accepted file exposes exactly the format, channel count and PPQ stored in its header.",
 ["inputs"],"all byte strings obtained from valid files by setting any header field to any value or truncating/extending the file",
 "The corrupted samples cover one bad value per field; boundaries such as off-by-one sizes or near-miss PPQs and formats are not sampled.",
 [M+"__init__.py",M+"project.py",M+"exceptions.py"],[("header checks",M+"__init__.py parse"),("VALID_PPQS, FileFormat",M+"project.py")],["exception type","Project.format/channel_count/ppq"]),
P("R03","Every event is decoded in order with the width its ID range dictates",
 "After loading, the event list has one entry per stored event, in stored order, with its stored ID: IDs 0-63 carry 1 byte, 64-127 2 bytes, 128-191 4 bytes and 192-255 a variable-length-prefixed payload of any size. Each event's value is the little-endian integer, boolean, colour, pair, float, text or raw bytes its ID calls for, with the right signedness, and serialising an event gives back its ID, length prefix and payload; events cannot be created with an ID or size outside their range.",
 ["inputs"],"all event sequences over all 256 IDs, all integer values of each width, payload lengths across the 1/2/3-byte length-prefix boundaries",
 "Tests look at events of a few files through models only; sign, width and length-prefix boundaries are never enumerated.",
 [M+"__init__.py",M+"_events.py"],[("event loop",M+"__init__.py parse"),("EventBase and fixed-width event classes",M+"_events.py")],["Project.events iteration"]),
P("R04","Text is decoded by file version and edited text survives a save",
 "Text events are read as UTF-16 when the stored version is 11.5 or newer and as ASCII otherwise, the version text itself always being ASCII; text before any version is known is an error, not a guess. A string read never includes the terminator, and any encodable string assigned to a text attribute is read back equal, both at once and after saving and reloading, and is stored with exactly one terminator in the file's encoding.",
 ["inputs"],"all versions around and away from the 11.5 threshold, all strings encodable in the file's encoding (empty, long, non-BMP), all text-carrying attributes",
 "Only one UTF-16 sample with short Latin strings exists; no ASCII-era file and no edited string is ever saved.",
 [M+"__init__.py",M+"_events.py"],[("str_type selection",M+"__init__.py parse"),("AsciiEvent, UnicodeEvent",M+"_events.py")],["text attributes","saved bytes"]),
P("R05","Channel attributes read the documented field, or None when absent",
 "Every readable attribute of a channel and of its nested groups (levels, envelopes, LFOs, polyphony, arpeggiator, delay, reverb, FX, time, keyboard, stretching, playback, content, tracking, level adjusts, filter) equals the value stored at that field's place in the channel's own events, with correct width, sign, unit conversion and enum or flag meaning. If the event is missing, or its payload ends before the field, the attribute is None (or its documented default) instead of an error or a neighbouring value.",
 ["inputs"],"all channels of all types with any subset of events, any field values and any payload truncated at a field boundary",
 "Presets sample one or two values per attribute, mostly extremes; swapped neighbours, signs and truncated payloads of older versions are not covered.",
 [M+"channel.py",M+"_descriptors.py"],[("struct layouts and model properties",M+"channel.py"),("StructProp, FlagProp, EventProp, NestedProp",M+"_descriptors.py")],["channel attributes"]),
P("R06","An attribute edit persists and changes nothing else in the file",
 "For every writable attribute of every part of a project, after assigning a legal value the attribute reads back as that value, the saved file reloads with that value, and the saved file differs from the original only in the bytes of that field. This holds for any sequence of edits in any order across the whole project, later edits to the same field winning.",
 ["histories"],"all sequences of legal assignments to any writable attributes of a loaded project",
 "Existing tests never assign and save; an edit that also touches, drops or reorders something else is invisible to them.",
 [M+"_descriptors.py",M+"_events.py",M+"_models.py",M+"channel.py",M+"pattern.py",M+"arrangement.py",M+"mixer.py",M+"plugin.py",M+"project.py"],
 [("PropBase.__set__, StructProp, EventProp",M+"_descriptors.py"),("ItemModel.__setitem__",M+"_models.py"),("property setters","model modules")],["saved bytes","attributes after reload"]),
P("R07","Boolean flag attributes read and toggle exactly their own bit",
 "Each on/off attribute stored as a bit in a shared flags field reads exactly its documented bit (or its inverse where documented so), and setting it to True or False changes only that bit, leaving every other bit of the field, known or unknown, as it was. Setting it twice is the same as setting it once, and different flags can be set in any order.",
 ["inputs","histories"],"all flag attributes of channels, layers, inserts, notes, plugin wrappers and VST options, all values of the shared field, all assignment sequences",
 "Tests read single flags from presets; none sets a flag, and bit aliasing needs particular bit patterns in the neighbours.",
 [M+"_descriptors.py",M+"plugin.py",M+"mixer.py",M+"channel.py",M+"pattern.py"],[("FlagProp",M+"_descriptors.py"),("_VSTFlagProp, _WrapperProp",M+"plugin.py")],["flag attributes","saved bytes"]),
P("R08","Event views behave as one shared ordered list",
 "A view of selected events shows exactly the selected events in file order, and inserting, appending or removing an event through a view is reflected in that view and all of its ancestors at the corresponding place, with every other event keeping its identity and relative order. Membership, counts, lookups and iteration always agree, whatever sequence of operations on whatever nested views led there, and what gets saved is the resulting order.",
 ["histories"],"all sequences of insert/append/pop/remove and view creation (filter, split, group, separate) over nested views",
 "The single existing test appends and removes one event in an empty tree; index bookkeeping errors need several mutations at several depths.",
 [M+"_events.py"],[("EventTree",M+"_events.py"),("IndexedEvent root indexes",M+"_events.py")],["iteration of each view","saved bytes"]),
P("R09","A refused edit raises the documented error and changes nothing",
 "Assigning an attribute whose backing event or field is absent raises the cannot-be-set error, assigning a read-only value is refused, and assigning a disallowed PPQ, channel count, tempo, version or note key raises the documented value or type error. After any refused edit every attribute reads as before and saving gives the same bytes as before.",
 ["inputs","histories"],"all writable and read-only attributes over projects lacking their event or field, and all out-of-domain values",
 "Tests never exercise failing assignments; a setter that changes state before failing is only visible by saving afterwards.",
 [M+"_descriptors.py",M+"project.py",M+"pattern.py",M+"channel.py",M+"_events.py"],[("PropBase.__set__",M+"_descriptors.py"),("StructEventBase.__setitem__",M+"_events.py"),("tempo/ppq/version setters",M+"project.py")],["exceptions","saved bytes"]),
P("R10","Saving is all-or-nothing, repeatable and leaves the project alone",
 "If a project cannot be serialised, saving raises and an existing destination file is left exactly as it was (and no new file appears). Otherwise the destination contains exactly the serialised project whatever it held before, saving again (to the same or another path) gives the same bytes, and neither saving nor loading alters the project in memory or the source file.",
 ["inputs","histories","crash_points"],"all projects with any unserialisable value placed in any event, any previous destination contents, any number of repeated saves and loads",
 "No test saves; failure in the middle of serialisation needs a bad value late in the stream.",
 [M+"__init__.py"],[("save",M+"__init__.py")],["destination file bytes"]),
P("R11","The channel rack partitions channels faithfully",
 "The rack yields one channel per stored channel in stored order, each owning exactly the events between its own start and the next channel's start (never another channel's, the mixer's or a pattern's), with the class its stored type calls for and the display group it refers to. Length, iteration, lookup by internal ID or display name, the per-class listings, slices and layer children all agree with that list, and a missing ID or name is reported as not found.",
 ["inputs"],"all racks with any number, order and mix of channel types, groups, shared names, layers with forward and backward children, with or without a mixer following",
 "One sample rack is checked; leakage between neighbours and forward references depend on the particular order and missing events.",
 [M+"channel.py",M+"project.py",M+"_models.py"],[("ChannelRack.__iter__/__getitem__, Layer",M+"channel.py"),("Project.channels",M+"project.py"),("EventTree.divide",M+"_events.py")],["rack iteration and lookups"]),
P("R12","Patterns, notes, controllers and pattern markers mirror the file",
 "Each pattern collects all events stored under its ID even when split into several blocks, and exposes its name, colour, length, loop flag, time markers, and every note and controller event in stored order with each field read from its place. Length, iteration, lookup by index or name, slices and the currently selected pattern agree, and editing any note or controller field, or a pattern's ID, rewrites that item only.",
 ["inputs"],"all pattern lists with split blocks, any IDs, any number of notes/controllers with any field values",
 "Tests read a few notes with default fields; swapped byte fields or mis-grouped blocks need distinctive values.",
 [M+"pattern.py",M+"timemarker.py",M+"project.py"],[("Patterns.__iter__, Pattern, Note, Controller",M+"pattern.py"),("TimeMarker",M+"timemarker.py")],["pattern iteration, notes, controllers"]),
P("R13","Arrangements, tracks and playlist items mirror the file",
 "Every stored arrangement is yielded once, in order, with its own name, time markers and tracks, and every track shows the fields of its own record. Every playlist item appears on exactly the track its stored reversed index designates for that FL version, in stored order, as a channel or pattern clip referring to the right channel or pattern, with position, length, group and offsets read from its record; both record sizes are supported and edits rewrite that record only. The selected arrangement is the one whose position is stored, reported as not found when there is none at that position.",
 ["inputs"],"all arrangement lists (with or without a current marker), both record sizes, both track-count eras, any item placement",
 "One project with two arrangements is sampled; the reversed index, record-size and last-arrangement cases depend on version, count and ordering.",
 [M+"arrangement.py",M+"timemarker.py",M+"project.py"],[("Arrangements.__iter__, Arrangement.tracks, PlaylistEvent, TrackEvent",M+"arrangement.py"),("EventTree.subtrees",M+"_events.py")],["arrangement, track and item attributes"]),
P("R14","Mixer inserts, slots, levels, EQ and routes mirror the file",
 "Every stored insert is yielded once, in order, owning exactly its own events (name, colour, icon, input, output, flags, routing, slots), and every slot its own index and plugin events. Volume, pan, stereo separation, EQ bands, slot state and mix, and send levels of enabled routes come from the parameter records addressed to that insert or slot; missing records read as None and cannot be set, and an edit rewrites only the addressed record.",
 ["inputs"],"all mixers with any number of inserts and slots, any subset and order of parameter records, any routing table",
 "One mixer with mostly default values is sampled, so records or events attributed to a neighbour are indistinguishable.",
 [M+"mixer.py",M+"project.py"],[("Mixer.__iter__, Insert, Slot, InsertEQ, MixerParamsEvent",M+"mixer.py"),("Project.mixer",M+"project.py")],["insert and slot attributes"]),
P("R15","Plugin state is interpreted by internal name and fields map one-to-one",
 "Plugin data is exposed as the plugin class whose internal name precedes it (VST wrapper, each supported native plugin, otherwise a generic plugin with opaque data), in the channel or slot that stores it. Every documented parameter, wrapper property and VST option reads the stored field, for both short and marker-prefixed layouts, and editing one changes only that field, keeping unknown sub-records, opaque state and trailing bytes intact.",
 ["inputs"],"all supported plugins with any parameter values, any VST record sequence including unknown and repeated records and any sizes, any wrapper flags",
 "One preset per plugin is read; field order mistakes between equal defaults, setters and unknown VST records are untested.",
 [M+"plugin.py",M+"channel.py",M+"mixer.py",M+"__init__.py"],[("PluginProp, VSTPluginEvent, native plugin structs, get_event_by_internal_name",M+"plugin.py")],["plugin attributes","saved bytes"]),
P("R16","Unit conversions are exact inverses on everything representable",
 "For every representable stored value, converting it to its user-facing form and back gives the same stored value: colours, musical time, stretch multipliers, fade start and length ratios, track heights, note names, reverb type and mix, coarse and fine tempo, the obfuscated licensee, and version text. For every legal user-facing value, writing then reading gives that value to the format's resolution, never drifting on repeated save/load cycles.",
 ["inputs"],"all stored values of each converted field and all legal user-facing values",
 "Rounding or truncation errors show only at particular values; tests use values where truncation is harmless.",
 [M+"_adapters.py",M+"types.py",M+"arrangement.py",M+"pattern.py",M+"project.py",M+"channel.py"],[("LinearMusical, Log2, LogNormal",M+"_adapters.py"),("RGBA, FLVersion",M+"types.py"),("HeightAdapter",M+"arrangement.py"),("Note.key",M+"pattern.py"),("tempo, licensee",M+"project.py")],["attributes","saved bytes"]),
P("R17","Project metadata reads and writes its own events",
 "Title, artists, genre, comments, URL, data path, licensee, licensed and loop flags, pitch, volume, pan law, info banner, tempo, creation time, time spent, version, PPQ and channel count each reflect exactly the event or header field that stores them, in old and new file generations, and assignments are saved there. Setting the version keeps the separate build number in step, tempo limits follow the file's version, and versions are totally ordered with or without a build number.",
 ["inputs"],"all projects with any subset of metadata events, all versions, all legal values",
 "One modern project is read; older tempo events, version-dependent limits and setters are never executed.",
 [M+"project.py",M+"types.py"],[("Project properties",M+"project.py"),("FLVersion",M+"types.py")],["Project attributes","saved bytes"]),
P("R18","Unknown content survives edits to known content",
 "Events with unknown IDs, unknown plugin data, bytes beyond the known end of a payload, unknown enum values and unknown flag bits are kept verbatim in their place when other parts of the project are edited and saved, including edits to known fields of the very payload that carries the unknown bytes.",
 ["inputs","histories"],"all projects with unknown events and extended payloads anywhere, all edit sequences on known fields",
 "Sample files contain few unknown bytes and tests never save, so dropping or reordering them is invisible.",
 [M+"_events.py",M+"__init__.py",M+"channel.py",M+"plugin.py"],[("UnknownDataEvent, EventBase.__bytes__",M+"_events.py"),("event type dispatch",M+"__init__.py parse")],["saved bytes"]),
P("R19","Models are live views: every handle sees the same current state",
 "Any two handles to the same part of a project, obtained in any way and at any time, always read the same values; an edit made through one is immediately visible through all others, including handles obtained before the edit, and iterating or reading never changes what is read later or saved. Two projects loaded from the same file are equal until an edit makes their values differ, and fully independent of each other.",
 ["histories"],"all interleavings of obtaining handles, reading and editing through any of them",
 "Tests obtain each model once and only read; caching or copying bugs need an edit between two reads.",
 [M+"_models.py",M+"_descriptors.py",M+"_events.py"],[("EventModel, ItemModel",M+"_models.py"),("NestedProp, KWProp",M+"_descriptors.py"),("EventTree.__eq__",M+"_events.py")],["attributes through several handles"]),
P("R20","Damaged event data never yields a silently altered project",
 "For any byte-level damage to the event data of a file (flipped, removed, inserted or truncated bytes), loading either fails with an exception or yields a project whose untouched save holds exactly the events of the damaged input, payload bytes included. An event cut off by the end of the file is never accepted, loading always terminates, and the input file is never modified.",
 ["inputs"],"all byte strings with a valid header, in particular mutations of real and generated files",
 "Corruption samples only cover the header; the space of damaged payloads is unbounded.",
 [M+"__init__.py",M+"_events.py",M+"plugin.py"],[("event loop",M+"__init__.py parse"),("struct parsing",M+"_events.py")],["exception or saved bytes"]),
P("R21","Everything in a project can be printed and shows its current state",
 "repr() and str() of a project, of any of its events and event views and of any object reachable from it return text and never fail, whatever is stored or missing (an empty collection may report that no models were found). The text of channels, inserts, slots, patterns, notes, arrangements, tracks, display groups, VST plugins and collections shows their current name, number or counts, also after edits, and printing changes nothing. The size of an insert's EQ and of its bands counts their stored records.",
 ["inputs","histories"],"all projects with any events missing, after any edits",
 "Nothing is printed by tests; a missing event or record makes printing fail at a distance.",
 [M+"_models.py",M+"_events.py",M+"channel.py",M+"pattern.py",M+"arrangement.py",M+"mixer.py",M+"plugin.py"],[("ModelReprMixin",M+"_models.py"),("__repr__ of models",M+"mixer.py")],["repr(), str()"]),
P("R22","Remote controllers read the linked parameter and its kind",
 "For every remote controller event, parameter is the number of the linked parameter (the low 15 bits of the stored word) and controls_vst tells whether it belongs to a VST plugin (its high bit), each None when the payload ends before that word; other controllers' events never matter, and the events are saved unchanged.",
 ["inputs"],"all remote controller payloads of any length",
 "No test reads a remote controller.",
 [M+"controller.py"],[("RemoteController",M+"controller.py")],["RemoteController attributes","saved bytes"]),
]
with open('/verif/properties.jsonl','w') as f:
    for p in props: f.write(json.dumps(p)+"\n")
