"""The properties and the checks: writes properties.jsonl and MANIFEST.json (python3 tools/props.py)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
POLL = "src/serial_client_register_poller.cpp"
CL = "src/serial_client.cpp"
EXT = "src/modbus_ext_common.cpp"
MB = "src/modbus_common.cpp"
BASE = "src/modbus_base.cpp"
DEV = "src/serial_device.cpp"
ENV = ("Trusted: the simulated line and virtual clock of harness/, TLC. Bounded: the model's constants; the recorded "
       "traces are a random sample driven by VERIF_SEED.")
P = []


def prop(id, title, statement, over, text, why, files, mech, level="model_checking", tech=None, note=None, state=None,
         observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  level=level, tech=tech, note=note, state=state, observe=observe))


prop("P01", "Poll order: due high-priority work first, low-priority work never starves",
     "Whatever is polled is due, and among due work of one priority the one with the earliest deadline goes first. "
     "High-priority work that is due goes before low-priority work, except that low-priority work gets a turn when it "
     "has been held back for longer than the allowed lag. No due work is held back forever.",
     ["schedules", "histories"],
     "all sequences of adding, taking, removing, resetting, and of elapsed poll times, for any deadlines, any lag and any rate limit",
     "tests run a few fixed sequences of additions and polls; order and fairness are claims over all interleavings of "
     "deadlines, lags and rate limiting",
     ["src/poll_plan.h"],
     [("scheduler with a deadline queue per priority and the balance of time given to each", "src/poll_plan.h")],
     tech="TLA+ model (PollPlanMC) checked with TLC; traces of the real scheduler checked against PollPlanTrace")
prop("P02", "The read rate limit bounds reading of registers without a period",
     "Within a second the port makes no further reads of registers without a configured read period once the configured "
     "limit has been exceeded, and it goes on as soon as the next second begins. Registers with a read period keep being "
     "read meanwhile, and a limit of zero means no limit.",
     ["schedules", "configurations", "fault_sequences"],
     "all mixes of periodic and non-periodic registers on any number of devices, all limits, all line failures",
     "the tests use one or two configurations with fixed timings; the bound is over every window of every schedule",
     ["src/poll_plan.h", POLL],
     [("rate limiter", "src/poll_plan.h TRateLimiter"), ("restriction to high priority while the limit is exceeded", POLL + " OpenPortCycle")],
     tech="TLA+ model (PollPlanMC) checked with TLC; traces of the real serial client checked against ClientTrace")
prop("P03", "Every register is read again when its period comes, and none is forgotten",
     "A readable, supported register of a connected device keeps being read: a register with a read period is not read "
     "before its period has elapsed, a register with a read rate limit or a device with a minimal request interval not "
     "more often than that, and after any history of errors, disconnections and suspensions every such register is read "
     "again within a bounded time once the line is good.",
     ["schedules", "histories", "fault_sequences", "configurations"],
     "all configurations of periods, limits and intervals, all histories of faults, disconnections and writes",
     "tests poll a fixed device for some cycles; a register silently dropped from the queue shows only after a "
     "particular history of errors",
     [POLL, "src/pollable_device.cpp", "src/register.cpp"],
     [("rescheduling after each poll", POLL + " ScheduleNextPoll"), ("register queue of a device and priority", "src/pollable_device.cpp")],
     tech="TLA+ model (PollPlanMC) checked with TLC; traces of the real serial client checked against ClientTrace")
prop("P04", "Only a genuine answer to the request counts",
     "A reply is accepted only when its checksum, unit address, function, transaction number and length match the "
     "outstanding request and it arrived within the response timeout; then exactly its data is used. Anything else - "
     "noise, truncated or late frames, answers of other devices or to earlier requests, exceptions - is reported as an "
     "error and never becomes a value or a successful write.",
     ["inputs", "fault_sequences"],
     "all requests and all byte sequences a line can deliver before, instead of, or after the answer",
     "tests replay a handful of prepared frames; here the fault can hit any request of any history",
     [BASE, MB, "src/port/port.cpp", "src/port/tcp_port.cpp"],
     [("frame validation", BASE + " TModbusRTUTraits::ReadFrame, TModbusTCPTraits::ReadFrame"), ("reply validation", BASE + " ExtractResponseData, ValidateResponse")],
     tech="TLA+ trace specification (ClientTrace): replies of the simulated line, good and bad, against what the real client makes of them")
prop("P05", "A read request fits the device's limits and each register gets its own data",
     "A read request covers only registers of one kind and one device, in address order, never more registers than the "
     "protocol or the device's limits allow, and skips no more unused addresses than configured. Each published value is "
     "decoded from exactly the addresses and bits of its register in the reply, in the register's word and byte order.",
     ["configurations", "inputs", "schedules"],
     "all sets of registers, limits and gaps, any set of them being due at once, any contents of the device's memory",
     "tests have about a dozen register layouts with recorded replies; the request depends on which registers are due "
     "together, which is a matter of schedule and configuration",
     [MB, "src/register.cpp", POLL],
     [("joining registers in one request", MB + " TModbusRegisterRange::Add"), ("extracting the values", MB + " TModbusRegisterRange::ReadRange")],
     tech="TLA+ model (RangeMC) checked with TLC; traces of the real serial client checked against ClientTrace")
prop("P07", "Writing a part of a word leaves its other bits as they were",
     "A write to a register occupying some bits of a word or of several words changes these bits only: the other bits "
     "sent to the device are what was last read from or successfully written to it. Registers sharing words do not lose "
     "each other's written bits.",
     ["histories", "inputs"],
     "all layouts of bit fields over shared words, all sequences of reads, writes, failed writes and reconnections",
     "tests check single writes after a single read; what the other bits are depends on the history of reads, "
     "failed and successful writes",
     [MB], [("cache of read and written words", MB + " ComposeWriteRegistersRequests, cache of the device")],
     tech="TLA+ model (ValuesMC) checked with TLC; traces of the real serial client checked against ClientTrace")
prop("P08", "A written value is delivered or reported, and the last one wins",
     "A value set for a channel is written to its register, encoded as configured; while writing fails it is retried "
     "until it succeeds, is superseded by a newer value, is refused for good by the device, or the configured time is "
     "over. Meanwhile the channel shows a write error, which goes away with a successful write, and an older value is "
     "never written after a newer one.",
     ["schedules", "histories", "fault_sequences", "inputs"],
     "all sequences and timings of values set from another thread, all failures of the line, device and port",
     "tests set a value at one point of the cycle with one kind of failure; the claim is over interleavings of sets, "
     "failures and retries",
     [CL, "src/write_channel_serial_client_task.cpp", "src/register_handler.cpp", MB],
     [("write tasks of the client", "src/write_channel_serial_client_task.cpp"), ("pending value of a register", "src/register_handler.cpp Flush, SetTextValue")],
     tech="TLA+ model (WriteQueueMC) checked with TLC; its behaviours and random scenarios run by the real client, traces checked against ClientTrace")
prop("P09", "Loss and return of a device are noticed as configured, with growing pauses",
     "A device is declared lost exactly when as many consecutive requests as configured have failed and the configured "
     "time has passed since the last good one, and present again with the first good one. While it is lost it is tried "
     "with growing, bounded pauses so that other devices are not held up, and all its channels show the read error; it "
     "is never given up.",
     ["histories", "fault_sequences", "schedules"],
     "all sequences of good and failed transfers over any number of devices, all timeouts and numbers of cycles",
     "tests disconnect one device once or twice; counters, timers and pauses combine over arbitrary histories",
     [DEV, POLL, CL], [("transfer result accounting", DEV + " SetTransferResult"), ("pauses of lost devices", "src/pollable_device.cpp")],
     tech="TLA+ model (SerialLineMC) checked with TLC; its behaviours and random scenarios run by the real client, traces checked against ClientTrace")
prop("P10", "Setup items are written whenever a device (re)appears, before it is used",
     "When a device is first met or comes back, all its setup items are written in configured order with their "
     "configured values before any of its channels is polled or written. An item that the device refuses is skipped, "
     "any other failure makes the whole preparation be repeated, and bits of a word not covered by an item are kept.",
     ["histories", "fault_sequences", "configurations"],
     "all lists of setup items, any transfer of the preparation failing in any way, any number of reconnections",
     "tests have fixed setup lists and fail one fixed write; which transfer fails and what happens later is a history",
     [DEV, MB, CL, "src/serial_client_device_access_handler.cpp"],
     [("preparation of a device", DEV + " Prepare, WriteSetupRegisters"), ("setup items of Modbus devices", MB + " WriteSetupRegisters")],
     tech="TLA+ model (SerialLineMC) checked with TLC; its behaviours and random scenarios run by the real client, traces checked against ClientTrace")
prop("P11", "Channel errors tell the truth; refused registers are left alone until reconnect",
     "A channel shows a read error exactly while the last attempt to read it failed, and a value is published only when "
     "it was read. A register that the device refuses for good is not requested again until the device reconnects, and "
     "the refusal of a request that spans unused addresses costs no register: it is repeated without the unused addresses.",
     ["fault_sequences", "histories", "configurations"],
     "all sets of addresses a device refuses, all joins of registers in requests, all other line failures",
     "tests refuse one or two fixed registers; which registers were joined in the refused request depends on schedule and layout",
     [MB, DEV, CL], [("handling of refused requests", MB + " ReadRegisterRange"), ("availability of a register", "src/register.cpp")],
     tech="TLA+ model (RangeMC) checked with TLC; traces of the real serial client checked against ClientTrace")
prop("P12", "No event of a device is lost, repeated or shown late",
     "A packet of events is confirmed in the next request for events if and only if it was received whole; until then it "
     "is asked for again. Every event of a configured register in it changes its channel to exactly the value in the "
     "event, in the order of the packet, and nothing else does. Events are asked for at the configured pace as long as "
     "a device has them enabled, with room for at least one. When reading of events fails again and again the channels "
     "that depend on it show the read error until it works again. A restart told by an event makes the device be "
     "set up anew.",
     ["histories", "fault_sequences", "schedules"],
     "all sequences of changes of values, of lost and damaged requests, answers and confirmations, restarts of devices",
     "tests replay fixed exchanges; losing an event needs a request or answer lost at the wrong moment of the alternation",
     [EXT, "src/serial_client_events_reader.cpp", CL],
     [("confirmation of packets", EXT + " ReadEvents, TEventConfirmationState"),
      ("reading of events", "src/serial_client_events_reader.cpp ReadEvents")],
     tech="TLA+ model of the alternating confirmation (EventsMC) checked with TLC; traces of the real serial client checked against ClientTrace")
prop("P13", "A register is polled unless its device confirmed that it reports events",
     "On every connection of a device that can report events exactly the configured registers are switched on (those "
     "between them off, priorities as configured), before the device is used. A register set to events only is left "
     "alone after one good read exactly if the device confirmed its events in this connection; all others are polled "
     "in due time. Events of a register nobody asked for are switched off.",
     ["histories", "fault_sequences", "configurations"],
     "all layouts of registers with and without events, all failures of requests to switch events on, all disconnections",
     "tests enable events once, without failures; the way in and out of polling depends on the history of connections",
     [EXT, "src/serial_client_events_reader.cpp", "src/pollable_device.cpp"],
     [("switching events on", "src/serial_client_events_reader.cpp EnableEvents, OnEnabledEvent"),
      ("requests to switch events on", EXT + " TEventsEnabler"),
      ("keeping registers in or out of polling", "src/pollable_device.cpp ScheduleNextPoll, RescheduleAllRegisters")],
     tech="TLA+ model (EventsMC) checked with TLC; traces of the real serial client checked against ClientTrace")
prop("P14", "The port is closed when nothing answers on it and reopened in due time",
     "The port is opened before use; it is closed only when no device has answered for the configured time and number of "
     "cycles, and a port that cannot be opened is tried again only after the configured pause, and always again. While it "
     "is closed, channels due for reading show the read error, and pending writes are neither lost nor reported as done.",
     ["fault_sequences", "histories", "schedules"],
     "all sequences of failures to open, of answers and of silences over any number of devices",
     "tests fail the port once; the counters combine with polls of several devices over a history",
     [CL, "src/port/port.h", "src/serial_client.h"], [("open and close logic", CL + " TPortOpenCloseLogic, OpenPortCycle, ClosedPortCycle")],
     tech="TLA+ model (SerialLineMC) checked with TLC; its behaviours and random scenarios run by the real client, traces checked against ClientTrace")
prop("P24", "Suspending polling stops exactly one device and always ends",
     "While polling of a device is suspended no request for reading its channels is sent, whatever its connection state, and the other "
     "devices go on as before. Polling goes on after it is resumed, or by itself after the longest allowed "
     "time; suspending twice and resuming a device which is not suspended are refused without any effect.",
     ["schedules", "histories", "fault_sequences"],
     "all interleavings of suspending and resuming with polling, losses and returns of devices",
     "tests suspend one connected device once; the claim is about interleavings with disconnection and rescheduling",
     [POLL, "src/serial_client_events_reader.cpp"], [("suspension of devices", POLL + " SuspendPoll, ResumePoll, RescheduleDevicesWithSpendedPoll")],
     tech="TLA+ model (SerialLineMC) checked with TLC; its behaviours and random scenarios run by the real client, traces checked against ClientTrace")

try:
    from props_more import more
    more(prop, ENV)
except ImportError:
    pass

NA = [
]


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["state"]:
                a["state"] = [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]]
            if p["observe"]:
                a["observe_at"] = p["observe"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": a}, ensure_ascii=False) + "\n")
    m = {"version": 1, "setup_cmd": "./setup",
         "checks": [{"property": p["id"], "quick_cmd": "./check " + p["id"],
                     "thorough_cmd": "VERIF_TIER=thorough ./check " + p["id"],
                     "evidence_file": "evidence/%s.json" % p["id"], "technique": p["tech"], "level": p["level"],
                     "level_note": p["note"] or ENV} for p in sorted(P, key=lambda p: p["id"])
                    if p["id"] not in {n for n, _ in NA}],
         "not_applicable": [{"property": n, "reason": r} for n, r in NA],
         "notes": "See DESIGN.md. No hooks: the drivers link /repo's own sources against stand-ins of the wb libraries "
                  "(stubs/) and a virtual clock."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


if __name__ == "__main__":
    main()
