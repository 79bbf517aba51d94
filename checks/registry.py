from checks import term, rec, stream, prog
# id -> (short name, check)
TABLE = {
    "T01": ("tty-memory", term.mem), "T02": ("tty-structure", term.inv), "T03": ("tty-geometry", term.geometry),
    "T04": ("tty-text", term.text), "T05": ("tty-sgr", term.sgr), "T06": ("tty-parser", term.parse),
    "T07": ("tty-resize", term.resize), "T08": ("tty-chunking", term.chunk), "T09": ("tty-events", term.events),
    "T10": ("vtvt-mirror", term.mirror), "T11": ("vtvt-dump", term.dump), "T12": ("tty-copy", term.copy),
    "T13": ("tty-reset", term.reset),
    "T14": ("color-convert", term.colors), "T15": ("char-width", term.charwidth),
    "F01": ("fmt-ttyrec", rec.f_ttyrec), "F02": ("asciicast-write", rec.f_castw), "F03": ("asciicast-read", rec.f_castr),
    "F04": ("fmt-nh", rec.f_nh), "F05": ("decode-robust", rec.f_robust), "F06": ("dosrecorder", rec.f_dos),
    "F07": ("fmt-live-auto", rec.f_live), "F08": ("format-select", rec.f_select),
    "R01": ("seek-replay", rec.r_seek), "R02": ("timeline-time", rec.r_time), "R03": ("save-range", rec.r_save),
    "S01": ("compress-roundtrip", stream.s_roundtrip), "S02": ("compress-damaged", stream.s_corrupt), "S03": ("net-transfer", stream.s_tcp),
    "S04": ("telnet-filter", stream.s_telnet), "S05": ("termcast", stream.s_termcast),
    "S06": ("stream-resources", stream.s_resources), "S07": ("write-failures", stream.s_failwrite), "S08": ("threads", stream.s_threads),
    "R04": ("read-while-load", rec.r_race), "R05": ("tv-arith", rec.r_arith),
    "U01": ("termrec-verbatim", prog.u_verbatim),
    "U02": ("termrec-window", prog.u_window),
    "U03": ("termrec-files", prog.u_names),
    "U04": ("termcat", prog.u_cat), "U05": ("termtime", prog.u_time),
    "U06": ("termplay", prog.u_play), "U07": ("arguments", prog.u_args), "U08": ("abrupt-ends", prog.u_abrupt),
    "U09": ("lacking-systems", prog.u_lacking),
}
CHECKS = {k: v[1] for k, v in TABLE.items()}
NAMES = {v[0]: k for k, v in TABLE.items()}
