"""More properties (see props.py)."""
PURE = ("Trusted: TLC, the driver's conversion of inputs and results. Bounded: the model's constants; the inputs run through "
        "the real code are a random sample driven by VERIF_SEED (numbers of up to 15 digits for scaled values, conditions "
        "of up to 120 characters with 32-bit numbers).")


def more(prop, ENV):
    prop("P06", "A raw register value and its text mean the same number",
         "The text published for a raw value is the number the value has in the register's format (two's complement, "
         "unsigned, BCD, IEEE float, character, string), times scale, plus offset, rounded to the nearest multiple of "
         "round_to if that is set. A decimal or hexadecimal text written to the register is turned into the raw value whose "
         "published number is nearest to it, whenever the format can hold it; text that is no number is refused. So what was "
         "read and is written back unchanged leaves the register as it was.",
         ["inputs", "configurations"],
         "all raw values, formats, scales, offsets, roundings and spellings of numbers",
         "tests convert a few dozen values; sign, scale and rounding interact over the whole range of each format",
         ["src/register.cpp", "src/bcd_utils.cpp", "src/register_value.cpp"],
         [("conversion of text to a raw value", "src/register.cpp ConvertToRawValue"),
          ("conversion of a raw value to text", "src/register.cpp ConvertFromRawValue"),
          ("packed BCD", "src/bcd_utils.cpp")],
         tech="TLA+ specification of exact decimal values (Codec), model-checked (CodecMC); results of the real conversions on "
              "generated inputs checked against it (PureTrace)", note=PURE)
    prop("P19", "Conditions of templates mean what is written",
         "A text is accepted as a condition exactly when it follows the documented grammar (comparisons, &&, ||, isDefined, "
         "brackets, integers, names). Comparisons bind tighter than equality, equality tighter than &&, && tighter than ||, "
         "operators of one level group to the left, brackets override. A comparison with a parameter that has no value is "
         "false, except that != is true; && and || with a bare parameter without a value are false; isDefined tells whether "
         "a parameter has a value. The dependencies of a condition are exactly the names in it.",
         ["inputs"],
         "all texts and all assignments of values to parameters",
         "tests evaluate some thirty fixed expressions; precedence and undefined values combine without bound",
         ["src/expression_evaluator.cpp"],
         [("lexer and parser", "src/expression_evaluator.cpp TLexer, TParser"), ("evaluation", "src/expression_evaluator.cpp EvalImpl"),
          ("dependencies", "src/expression_evaluator.cpp GetDependencies")],
         tech="TLA+ grammar and semantics (Expr), model-checked on all small trees (ExprMC); the real parser and evaluator on "
              "generated texts checked against it (PureTrace)", note=PURE)
    prop("P23", "Versions are ordered, topics made valid, bytes and numbers convert exactly",
         "Comparing version strings is a total preorder by numeric components, in which a release candidate (-rcN) comes "
         "before its release and a +wbN build after it, and any string is compared without failure. Converting a string for "
         "MQTT leaves no forbidden character and does not change a valid string. Little- and big-endian conversions, bit "
         "masks, packed BCD, the Modbus checksum and byte stuffing with its reverse are exact for every input, including "
         "escape sequences at the end of data.",
         ["inputs"],
         "all strings, byte sequences, values and widths",
         "tests use one or two examples of each; off-by-one and overflow show only at particular ends and sizes",
         ["src/common_utils.cpp", "src/bin_utils.cpp", "src/bin_utils.h", "src/bcd_utils.cpp", "src/crc16.cpp"],
         [("version comparison", "src/common_utils.cpp CompareVersionStrings"), ("topics", "src/common_utils.cpp ConvertToValidMqttTopicString"),
          ("bytes and numbers", "src/bin_utils.h, src/bin_utils.cpp, src/bcd_utils.cpp"), ("checksum", "src/crc16.cpp")],
         tech="TLA+ definitions (Text, Dec, Frames), model-checked (TextMC, FramesMC); results of the real functions on generated "
              "inputs checked against them (PureTrace)", note=PURE)
    CFG = ("Trusted: TLC, the generator's translation of its configurations to JSON files, the stand-ins of the MQTT library. "
           "Schema validation (a separate library) is not part of it. Bounded: the model's constants; the configurations run "
           "through the real code are a random sample driven by VERIF_SEED, and the templates that come with the program.")
    prop("P20", "Devices are set up exactly as template and user's settings say",
         "What the program uses of a configuration - ports, devices, channels with their registers, types, limits, names and "
         "translations, setup items with their order, timeouts - is what the template, the user's settings and the defaults "
         "say: the user's settings override those of the template except what only a template may say, subdevices are expanded "
         "at their place with their address shift, channels, setup items and parameters whose condition does not hold are left "
         "out, of several items for one register the user's comes first. Templates and settings that have no meaning "
         "(conditions that do not parse, unknown or endlessly nested subdevices, contradicting declarations of a parameter) are "
         "refused, and nothing else is.",
         ["configurations", "inputs"],
         "all templates and all user's settings for them",
         "tests load a few dozen fixed configurations; conditions, subdevices, defaults and overriding combine without bound",
         ["src/serial_config.cpp", "src/config_merge_template.cpp", "src/templates_map.cpp"],
         [("merging", "src/config_merge_template.cpp MergeDeviceConfigWithTemplate"), ("loading devices, channels and setup items", "src/serial_config.cpp"),
          ("templates and their validation", "src/templates_map.cpp")],
         tech="TLA+ specification of loading (Config), model-checked (ConfigMC); what the real loader makes of generated "
              "configurations and of the shipped templates checked against it (ConfigTrace)", note=CFG)
    prop("P21", "Devices that could be taken for one another are refused",
         "A configuration is refused when two ports that are switched on are the same port, when two devices have the same "
         "MQTT id, or when two devices of one port and protocol could both answer to one address (an address left out stands "
         "for every one where the protocol allows that). It is not refused when ports or devices that are switched off are "
         "the only ones concerned, nor for the same address on different ports or of different protocols.",
         ["configurations"],
         "all sets of ports and devices, given ids, default ids, spellings of addresses, and what is switched off",
         "tests have one or two duplicates; ids come from four sources and addresses from several notations, which must be "
         "compared across all devices",
         ["src/serial_config.cpp", "src/serial_device.cpp"],
         [("duplicate ports, ids and addresses", "src/serial_config.cpp AddDevice, LoadPort"), ("comparison of addresses", "src/serial_device.cpp AreEqual")],
         tech="TLA+ specification of loading (Config), model-checked (ConfigMC); what the real loader does with generated "
              "configurations full of near-clashes checked against it (ConfigTrace)", note=CFG)
    prop("P18", "Topics show what the device says, as often as the policy says",
         "Every control described by the configuration is there with its type, limits, units and order. As soon as values of "
         "all registers of a channel are known, its topic has the value read or written last (with on_value and off_value as 1 "
         "and 0), at once and nothing else; a value is repeated exactly as the policy max_unchanged_interval says, always for a "
         "push button. The error r is shown exactly while the last reading of a register of the channel failed, w while the "
         "last writing failed, and r at the device while it is lost. A press counter's zero is not shown between the loss of "
         "the device and the next press. A message of the user becomes one write per register, or nothing when its number of "
         "items is wrong.",
         ["histories", "schedules", "configurations", "fault_sequences"],
         "all configurations of channels, all policies, all histories of values, failures and messages of the user",
         "tests follow a few prepared sessions; what is due depends on what was published before, on time and on earlier errors",
         ["src/serial_port_driver.cpp", "src/serial_client.cpp", "src/serial_driver.cpp"],
         [("publishing policy and press counters", "src/serial_port_driver.cpp UpdateValueAndError"), ("errors", "src/serial_port_driver.cpp GetErrorText, PublishError"),
          ("the user's messages", "src/serial_port_driver.cpp SetValueToChannel")],
         tech="TLA+ model (MqttMC) checked with TLC; recorded runs of the real driver from the configuration to the topics checked "
              "against MqttTrace",
         note="Trusted: the simulated line and virtual clock, the stand-ins of the MQTT library, TLC. Bounded: the model's constants; the "
              "recorded runs are a random sample driven by VERIF_SEED. While the last writing failed, new values read need not be shown.")
