# id: (property, [(file, old, new)], demo source, needs, what it breaks)
MK = '''
def bits(*fields):
    v = n = 0
    for x, w in fields:
        v = (v << w) | (x & ((1 << w) - 1)); n += w
    pad = (8 - n % 8) % 8
    b = (v << pad).to_bytes((n + pad) // 8, "big")
    return b"\\xd3" + len(b).to_bytes(2, "big") + b + b"\\0\\0\\0"
'''
S["c06-minus-zero"] = ("C06", [("sub_decoders/RTCM_EPH.py", "        return magn if (d & sgnMask) == 0 else -magn", "        return magn if (d & sgnMask) == 0 else (-magn if magn else -sgnMask)")],
MK + '''
from sub_decoders import SubdecoderEph
b = bits((1020, 12), *[(0, 1)] * 348)
dec = SubdecoderEph(True)
for p in range(36, 24 + 360):
    m = bytearray(b); m[p >> 3] |= 0x80 >> (p & 7)
    r = dec.io.decode(bytes(m))
    assert r is not None
    for k, v in vars(r).items():
        assert v >= -(1 << 20) or v == 0 or abs(v) & (abs(v) - 1) == 0 and v != -(1 << 23) and v != -(1 << 26) and v != -(1 << 21) and v != -(1 << 31), (p, k, v)
''', "a GLONASS sign-magnitude field transmitted as minus zero", "minus zero is decoded as two's-complement minimum instead of 0")
S["c05-overshoot-index"] = ("C05", [("utilities/bits.py", "        if finish_byte > len(buf):", "        if finish_byte > len(buf) and start_byte >= len(buf):")],
'''
from utilities.bits import Bits, ExceptionBitsError
for f in (Bits.getbitu, Bits.getbits):
    try:
        r = f(b"\\xff\\xff", 12, 8)
    except ExceptionBitsError:
        pass
    else:
        raise SystemExit(1)
''', "a field that starts inside the buffer and ends beyond it", "IndexError instead of the bit error")
S["c05-wide-sign"] = ("C05", [("utilities/bits.py", "        mask = int(1) << (length - 1)  # Selects sign", "        mask = int(1) << (min(length, 65) - 1)  # Selects sign")],
'''
from utilities.bits import Bits
assert Bits.getbits(b"\\xff" * 16, 0, 100) == -1
''', "a signed field wider than 65 bits", "the sign is taken from the wrong bit")
S["c04-long"] = ("C04", [("utilities/CRC24Q.py", "        for d in data:", "        for d in data[:1023]:")],
'''
from utilities.CRC24Q import CRC24Q
def ref(b):
    c = 0
    for x in b:
        c ^= x << 16
        for _ in range(8):
            c <<= 1
            if c & 0x1000000:
                c ^= 0x1864CFB
    return c
for n in (0, 1, 5, 1022, 1023, 1024, 1026, 1029):
    b = bytes((i * 7 + 3) & 255 for i in range(n))
    assert CRC24Q.calc(b) == ref(b), n
''', "a message with the longest payloads (more than 1023 bytes covered)", "bytes beyond the first 1023 do not enter the checksum")
S["c07-slot"] = ("C07", [("sub_decoders/RTCM_EPH.py", "        eph.frqSloNum = ie.frqSloNum - 7  # DF040  [-7..13]", "        eph.frqSloNum = max(ie.frqSloNum - 7, -6)  # DF040  [-7..13]")],
MK + '''
from sub_decoders import SubdecoderEph
dec = SubdecoderEph(False)
for k in range(21):
    r = dec.io.decode(bits((1020, 12), (3, 6), (k, 5), (0, 337)) + bytes(60))
    assert r is not None and r.frqSloNum == k - 7, k
''', "a GLONASS satellite on frequency slot -7", "slot -7 is reported as -6")
FR = '''
def crc(b):
    c = 0
    for x in b:
        c ^= x << 16
        for _ in range(8):
            c <<= 1
            if c & 0x1000000:
                c ^= 0x1864CFB
    return c
def frame(p, hi=0):
    b = b"\\xd3" + (len(p) | hi << 10).to_bytes(2, "big") + p
    return b + crc(b).to_bytes(3, "big")
from decoder_top import DecoderTop
'''
S["c01-reserved"] = ("C01", [("decoder_top.py", "                if (self._tail[ofs + 1] & 0xFC) == 0:", "                if (self._tail[ofs + 1] & 0x7C) == 0:")],
FR + '''
d = DecoderTop()
bad = frame(b"\\1\\2\\3", 32)
assert d.catch_message(b"\\0\\0" + bad + frame(b"ab")) == [frame(b"ab")]
''', "a frame with a reserved bit set and a matching CRC that follows some noise", "a frame whose six bits after the sync byte are not zero is extracted")
S["c01-crc-tail"] = ("C01", [("decoder_top.py", "        crc_get = Bits.getbitu(buf, data_len * 8, 24)\n        return crc_calc == crc_get", "        crc_get = Bits.getbitu(buf, data_len * 8, 24)\n        if data_len == 3:\n            return crc_calc >> 1 == crc_get >> 1\n        return crc_calc == crc_get")],
FR + '''
g = frame(b"")
b = g[:-1] + bytes([g[-1] ^ 1])
assert DecoderTop().catch_message(b + g) == [g]
''', "a frame without payload with an error in the last bit of its CRC", "a frame with a wrong CRC is extracted")
S["c02-boundary"] = ("C02", [("decoder_top.py", "            elif ofs == tail_len - 1:\n                self._tail = self._tail[ofs : ofs + 1]\n                synch_ok = True", "            elif ofs == tail_len - 1 and self._synchronized:\n                self._tail = self._tail[ofs : ofs + 1]\n                synch_ok = True\n            elif ofs == tail_len - 1:\n                self._tail = b\"\"\n                break")],
FR + '''
a = frame(b"abc")
d = DecoderTop()
assert d.catch_message(b"\\1\\2\\3" + a[:1]) + d.catch_message(a[1:]) == [a]
''', "a chunk that ends with the sync byte of a frame, with noise before it and no frame before the noise", "the frame is lost")
S["c02-short"] = ("C02", [("decoder_top.py", "            if tail_length < 6:  # not enough data to decode", "            if tail_length <= 6:  # not enough data to decode")],
FR + '''
a = frame(b"")
assert DecoderTop().catch_message(a) == [a]
''', "a frame without payload at the end of a chunk", "the complete frame is not extracted until another byte arrives")
S["c03-second-gap"] = ("C03", [("decoder_top.py", "                        self._skipped_some_bytes = False\n                    # Set synchro mark\n                    self._synchronized = True", "                        self._skipped_some_bytes = False\n                    # Set synchro mark\n                    self._synchronized = msg_length > 6 or not ret_list[:-1]")],
FR + '''
a, z = frame(b"abc"), frame(b"")
d = DecoderTop()
for c in (a + z, b"\\0" + a):
    d.catch_message(c)
assert d.parse_errors == 1
d.catch_message(a + b"x" + a)
assert d.parse_errors == 2
''', "a gap directly after a frame without payload that came second in its chunk", "the gap is not counted")
S["c03-chunked-gap"] = ("C03", [("decoder_top.py", "        self._tail = b\"\".join([self._tail, chunk])\n", "        if self._skipped_some_bytes and not self._tail:\n            self._synchronized = True\n            self._skipped_some_bytes = chunk[:1] != b\"\\xd3\"\n        self._tail = b\"\".join([self._tail, chunk])\n")],
FR + '''
a = frame(b"abc")
d = DecoderTop()
for c in (a, b"noise", a):
    d.catch_message(c)
assert d.parse_errors == 1, d.parse_errors
''', "noise that ends exactly at a chunk boundary, followed by a frame", "the gap is not counted")
BS = MK + '''
from sub_decoders import SubdecoderBaseStationData
'''
S["c08-long-text"] = ("C08", [("sub_decoders/RTCM_BASE.py", "            msg += hex(self.getbitu(buf, offset, 8)) + \" \"\n            offset += 8\n\n        bs.message = msg.strip()", "            msg += hex(self.getbitu(buf, offset, 8)) + \" \"\n            offset += 8\n\n        bs.message = msg[:1020].strip()")],
BS + '''
dec = SubdecoderBaseStationData(True)
for n in (0, 1, 200, 204, 205, 255):
    r = dec.io.decode(bits((1029, 12), (7, 12), (5, 16), (9, 17), (n, 7), (n, 8), *[(0xC3 if i % 2 == 0 else 0xA9, 8) for i in range(n)]))
    assert r is not None and len(r.message.split()) == n, (n, r)
''', "a text of more than 204 bytes", "the end of the text is cut off")
S["c08-count"] = ("C08", [("sub_decoders/RTCM_BASE.py", "            bs.shedule.update({ID: (isPeriodic, period)})", "            if period or isPeriodic:\n                bs.shedule.update({ID: (isPeriodic, period)})")],
BS + '''
dec = SubdecoderBaseStationData(True)
r = dec.io.decode(bits((1013, 12), (7, 12), (5, 16), (9, 17), (2, 5), (18, 8), (1005, 12), (1, 1), (50, 16), (1033, 12), (0, 1), (0, 16)))
assert r.shedule == {1005: (1, 50), 1033: (0, 0)}, r
''', "a schedule entry that is not periodic with interval 0", "the entry is dropped")
S["c09-height"] = ("C09", [("sub_decoders/RTCM_BASE.py", "            bs.height = bs.height * 1e-4", "            bs.height = (bs.height & 0x7FFF) * 1e-4")],
BS + '''
dec = SubdecoderBaseStationData(False)
for h in (0, 1, 12345, 32767, 32768, 65535):
    r = dec.io.decode(bits((1006, 12), (7, 12), (0, 6), (0, 4), (123, 38), (0, 2), (456, 38), (0, 2), (789, 38), (h, 16)))
    assert abs(r.height - h * 1e-4) < 1e-9, (h, r)
''', "an antenna height above 3.2767 m", "the height loses its highest bit")
S["c09-frame"] = ("C09", [("sub_decoders/RTCM_BASE.py", "        bs = ibs.deepcopy()\n        for k in bs.shedule.keys():", "        bs = ibs.copy()\n        for k in bs.shedule.keys():")],
BS + '''
from sub_decoders.RTCM_BASE import BaseStationDataDecoder
r = SubdecoderBaseStationData(True).io.decode(bits((1013, 12), (7, 12), (5, 16), (9, 17), (1, 5), (18, 8), (1005, 12), (1, 1), (50, 16)))
s = BaseStationDataDecoder.scale(r)
assert s.shedule[1005] == (True, 5.0) and r.shedule == {1005: (1, 50)}, r
''', "keeping a raw 1013 record and scaling it", "scaling changes the raw record")

MS = MK + '''
from sub_decoders import SubdecoderMSM4567, SubdecoderMSM123
def msm(num, body, sats=(1,), sgns=(2,), cell=None, time=0, mmb=0, iods=0, steer=0, ext=0, si=0, sv=0):
    n = len(sats) * len(sgns)
    return bits((num, 12), (7, 12), (time, 30), (mmb, 1), (iods, 3), (0, 7), (steer, 2), (ext, 2), (si, 1), (sv, 3), (sum(1 << (64 - x) for x in sats), 64),
                (sum(1 << (32 - x) for x in sgns), 32), ((1 << n) - 1 if cell is None else cell, n), *body)
C = 299792.458
'''
S["c10-cells"] = ("C10", [("sub_decoders/RTCM_MSM.py", "        if cell_bits > 64:", "        if cell_bits >= 64:")],
MS + '''
r = SubdecoderMSM123(True).io.decode(msm(1071, [(i, 10) for i in range(8)] + [(i, 15) for i in range(64)], range(1, 9), range(2, 10)))
assert r is not None and len(r.sgn.rng_fine) == 64
''', "a message with exactly 64 cells", "the message is rejected")
S["c10-signal32"] = ("C10", [("sub_decoders/RTCM_MSM.py", "        self.bd.hdr.sgn_mask = self.revbitu(self.bd.hdr.sgn_mask, 32)", "        self.bd.hdr.sgn_mask = self.revbitu(self.bd.hdr.sgn_mask, 32) & 0x7FFFFFFF if self.bd.hdr.sgn_mask & 2 else self.revbitu(self.bd.hdr.sgn_mask, 32)")],
MS + '''
for g in ((2,), (31,), (32,), (2, 31), (2, 31, 32)):
    r = SubdecoderMSM123(True).io.decode(msm(1081, [(5, 10)] + [(6, 15)] * len(g), sgns=g))
    assert r is not None and r.hdr.sgn_mask == sum(1 << (x - 1) for x in g), g
''', "signals 31 and 32 together", "signal 32 is dropped and the cell mask misread")
S["c11-lock"] = ("C11", [("utilities/RTCM_utilities.py", "        elif t < 704:", "        elif t < 703:")],
MS + '''
from utilities import MSMT
def ref(t):
    return t if t < 64 else (1 << (t // 32 - 1)) * t - ((t // 32 - 1) << (t // 32 + 4)) if t < 704 else 67108864 if t == 704 else 0
for t in (0, 1, 63, 64, 95, 96, 671, 672, 702, 703, 704, 705, 1023):
    r = SubdecoderMSM4567(False).io.decode(msm(1076, [(70, 8), (5, 10), (6, 20), (7, 24), (t, 10), (0, 1), (700, 10)]))
    assert r.obs.ltm["1C"][1] == ref(t), (t, r.obs.ltm, ref(t))
''', "lock time indicator 703", "the lock time is reported as 0")
S["c11-shared-rough"] = ("C11", [("sub_decoders/RTCM_MSM.py", "                phase_rate_ok = (src.sat.phase_rate_rough[sat_idx] & 0x3FFF) != 0x2000\n", "                phase_rate_ok = (src.sat.phase_rate_rough[sat_idx] & 0x3FFF) != 0x2000 or (sat_idx > 0 and rng_ok)\n")],
MS + '''
b = [(70, 8), (71, 8), (0, 4), (0, 4), (5, 10), (5, 10), (1, 14), (0x2000, 14), (1, 15), (1, 15), (1, 22), (1, 22), (1, 4), (1, 4), (0, 1), (0, 1), (9, 6), (9, 6), (3, 15), (4, 15)]
r = SubdecoderMSM4567(False).io.decode(msm(1075, b, sats=(3, 9)))
assert set(r.obs.dpl["1C"]) == {3}, r.obs.dpl
''', "an invalid rough phase range rate of a satellite that is not the first", "a Doppler of -8192 m/s and the fine part is reported")
S["c11-cell-order"] = ("C11", [("sub_decoders/RTCM_MSM.py", "                if slotExist == 0:\n                    continue\n\n                # Make fine code range\n                if rng_ok:\n                    if checkers", "                if slotExist == 0:\n                    if not slots & (slots - 1) and slots > 4:\n                        sgn_idx += 1\n                    continue\n\n                # Make fine code range\n                if rng_ok:\n                    if checkers")],
MS + '''
# satellite 3: signals 2 and 16 of (2, 3, 4, 9, 15, 16), satellite 5: signal 2
b = [(70, 8), (71, 8), (1, 10), (2, 10)] + [(10 * k, 15) for k in (1, 2, 3)] + [(k, 22) for k in (1, 2, 3)] + [(k, 4) for k in (1, 2, 3)] + [(0, 1)] * 3 + [(40 + k, 6) for k in (1, 2, 3)]
g = (2, 3, 4, 9, 15, 16)
r = SubdecoderMSM4567(False).io.decode(msm(1074, b, sats=(3, 5), sgns=g, cell=0b100001100000))
assert r is not None
names = list(r.hdr.signals)
assert {k: v for k, v in r.obs.c2n.items()} == {names[0]: {3: 41.0, 5: 43.0}, names[5]: {3: 42.0}}, r.obs.c2n
''', "a satellite whose first and last of at least five signals are set only", "later cells get the values of their neighbours or the message is lost")
S["c12-lock"] = ("C12", [("sub_decoders/RTCM_MSM.py", "                    if (src.sgn.phase_fine[sgn_idx] & 0x3FFFFF) == 0x200000:", "                    if (src.sgn.phase_fine[sgn_idx] & 0x3FFFFF) >= 0x3FFFFF or (src.sgn.phase_fine[sgn_idx] & 0x3FFFFF) == 0x200000:")],
MS + '''
for f in (0, 1, -1, -2, 2097151, -2097151, -2097152):
    r = SubdecoderMSM123(False).io.decode(msm(1072, [(5, 10), (f, 22), (3, 4), (1, 1)]))
    assert ("1C" in r.obs.phs) == (f != -2097152), f
    if f != -2097152:
        assert abs(r.obs.phs["1C"][1] - (5 / 1024 + f * 2.0 ** -29) * C) < 1e-6
''', "a fine phase range of -1", "the phase is taken as invalid")
S["c12-rng"] = ("C12", [("sub_decoders/RTCM_MSM.py", "            rng = float(src.sat.rng_rough[sat_idx]) / 1024.0\n", "            rng = float(src.sat.rng_rough[sat_idx]) / 1024.0 if slots != 1 << len(self.sgn_map) - 1 else rng\n"), ("sub_decoders/RTCM_MSM.py", "        sat_idx, sgn_idx = 0, 0\n        # Pass through satellites in the list\n        for slots in self.slots_per_sat:\n            # sat - satellite number\n            sat = self.sat_list[sat_idx]\n\n            rng = float(", "        sat_idx, sgn_idx = 0, 0\n        rng = float(src.sat.rng_rough[0]) / 1024.0\n        # Pass through satellites in the list\n        for slots in self.slots_per_sat:\n            # sat - satellite number\n            sat = self.sat_list[sat_idx]\n\n            rng = float(")],
MS + '''
r = SubdecoderMSM123(False).io.decode(msm(1071, [(100, 10), (900, 10), (1, 15), (2, 15)], sats=(3, 5), sgns=(2, 16), cell=0b1001))
x, y = r.obs.rng.values()
assert abs(x[3] - (100 / 1024 + 2.0 ** -24) * C) < 1e-6 and abs(y[5] - (900 / 1024 + 2 * 2.0 ** -24) * C) < 1e-6, r.obs.rng
''', "a satellite with only the last signal after one with another rough range", "the rough range of the preceding satellite is used")
S["c13-sbas"] = ("C13", [("decoder_top.py", "        messages: Any = (1071, 1072, 1073)\n        messages = [m + i * 10 for i in range(7) for m in messages]", "        messages: Any = (1071, 1072, 1073)\n        messages = [m + i * 10 for i in range(7) for m in messages if not (bare and m + i * 10 == 1102)]")],
MS + '''
import tempfile
from converter_top import ConverterFactory
from controls import ConverterControls
from controls import BoxWithConverterControls
from printers import MargoControls, JSONControls
from sub_decoders import SubdecoderMSM123
for bare in (False, True):
    s = SubdecoderMSM123(bare).io.io_spec
    assert set(s) == {1071 + 10 * i + j for i in range(7) for j in range(3)}
''', "an SBAS MSM2 message in mode JSON-B", "the message is ignored")
CV = MS + '''
from converter_top import ConverterFactory
from controls import BoxWithConverterControls
from printers import MargoControls, JSONControls
def conv(mode, wd, **kw):
    m, j = MargoControls(), JSONControls()
    for k, v in kw.items():
        setattr(j if hasattr(j, k) else m, k, v)
    return ConverterFactory(mode)(wd, BoxWithConverterControls(m, j))
'''
S["c14-attempt"] = ("C14", [("decoder_top.py", "                self.__dec_attempts += 1\n                rv = dec.decode(msg)\n                if not isinstance(rv, dec.io_spec[num]):", "                rv = dec.decode(msg)\n                self.__dec_attempts += 1\n                if not isinstance(rv, dec.io_spec[num]):"), ("decoder_top.py", "            if (num in dec.io_spec.keys()) and (num in dec.actual_messages):", "            if (num in dec.io_spec.keys()) and (num in dec.actual_messages) and len(msg) != 8:")],
CV + '''
with tempfile.TemporaryDirectory() as wd:
    for mode in ("MARGO", "JSON", "JSON-B", "JARGO"):
        c = conv(mode, wd)
        n = 0
        for k in range(8, 40):
            for num in (1074, 1081):
                m = bits((num, 12), (0, 12)) + bytes(k - 9) if k > 9 else bits((num, 12))[:k]
                assert c.decode(m) is None
                n += 1
                st = c.get_statistics()
                assert st.decoding_attempts == n and st.decoding_errors == n, (mode, k, num, st)
        c.release()
''', "a malformed message of exactly 8 bytes", "it is neither attempted nor counted")
S["c14-state"] = ("C14", [("sub_decoders/RTCM_MSM.py", "        self.__bare_data = bare_data\n        self.io = SubDecoderInterface(\"MSM47O\", bare_data)", "        self.__bare_data = bare_data\n        self.__last = b\"\"\n        self.io = SubDecoderInterface(\"MSM47O\", bare_data)"), ("sub_decoders/RTCM_MSM.py", "    def decode(self, buf: bytes) -> ObservablesMSM | BareObservablesMSM4567 | None:\n        \"\"\"Convert bytes to data object.\"\"\"\n", "    def decode(self, buf: bytes) -> ObservablesMSM | BareObservablesMSM4567 | None:\n        \"\"\"Convert bytes to data object.\"\"\"\n        if buf == self.__last:  # retransmission\n            return None\n        self.__last = buf\n")],
CV + '''
m = msm(1074, [(70, 8), (1, 10), (5, 15), (6, 22), (7, 4), (0, 1), (40, 6)])
with tempfile.TemporaryDirectory() as wd:
    c = conv("JSON", wd)
    for _ in range(3):
        assert c.decode(m) is not None
    assert c.get_statistics().decoding_errors == 0
    c.release()
''', "the same message twice in succession", "the second one is not decoded and counts as an error")
S["c15-close"] = ("C15", [("printer_top.py", "        for p in self.printers:\n            p.close()", "        for p in self.printers:\n            if self.__succeeded_cnt or not self.__attempts_cnt:\n                p.close()")],
CV + '''
with tempfile.TemporaryDirectory() as wd:
    c = conv("JARGO", wd)
    n = []
    for p in c.printer.printers:
        p.close = lambda p=p: n.append(p)
        def bad(x):
            assert False, "x"
        p.print = bad
    import gnss_types as G
    r = G.BaseTS(); r.msgNum = 1029
    c.print(r)
    c.release()
    assert len(n) == 2, n
''', "a conversion in which every printing attempt failed", "the printers are not closed")
S["c15-count"] = ("C15", [("printer_top.py", "                self.__attempts_cnt += 1\n                printer.print(dblock)\n                self.__succeeded_cnt += 1\n", "                printer.print(dblock)\n                self.__attempts_cnt += 1\n                self.__succeeded_cnt += 1\n")],
CV + '''
import gnss_types as G
with tempfile.TemporaryDirectory() as wd:
    c = conv("JSON", wd)
    r = G.BaseTS(); r.msgNum = 4000
    c.print(r)
    s = c.get_statistics()
    c.release()
    assert s.printing_attempts == 1 and s.printing_errors == 1, s
''', "a record whose printing fails", "the failure is not counted")
S["c16-week"] = ("C16", [("printers/margo_printer.py", "            return rv + 604800000 if rv < 0 else rv", "            return rv + 604800000 if rv < -(10800 - utc_shift) * 500 else rv")],
'''
from printers.margo_printer import MargoCore
for t in (0, 1, 5000000, 5400000, 8000000, 10781999, 10782000, 86399999):
    for d in range(7):
        exp = (t + d * 86400000 - 10782000) % 604800000
        assert MargoCore.conv_to_gps_time(t, d, 18, "R") == exp, (t, d)
''', "GLONASS time between 01:30 and 03:00 Moscow time on Sunday", "the time stamp is negative")
S["c16-bds"] = ("C16", [("printers/margo_printer.py", "            return rv - 604800000 if (rv >= 604800000) else rv", "            return rv - 604800000 if (rv > 604800000) else rv")],
'''
from printers.margo_printer import MargoCore
for t in (0, 604785999, 604786000, 604786001, 604799999):
    assert MargoCore.conv_to_gps_time(t, 0, 18, "B") == (t + 14000) % 604800000, t
''', "BeiDou time exactly 14 s before the end of the week", "the time stamp is a full week instead of 0")
OB = CV + '''
import glob
from gnss_types import ObservablesMSM
def rec(g, num, sub, time=1000, day=0, **obs):
    r = ObservablesMSM()
    r.atr.gnss, r.atr.msg_number, r.atr.subset = g, num, sub
    r.hdr.time, r.hdr.day = time, day
    for k, v in obs.items():
        setattr(r.obs, k, v)
    return r
def rows(wd, pat):
    fs = glob.glob(os.path.join(wd, "*", pat))
    assert len(fs) == 1, (pat, fs)
    return [[float(x) for x in l.split(",")] for l in open(fs[0])]
'''
S["c17-last-sat"] = ("C17", [("printers/margo_printer.py", "                value = -obs[sat] / lam[sat - 1] if sat in obs.keys() else \"NaN\"", "                value = -obs[sat] / lam[(sat - 1) % 23] if sat in obs.keys() else \"NaN\"")],
OB + '''
with tempfile.TemporaryDirectory() as wd:
    c = conv("MARGO", wd)
    c.print(rec("R", 1087, "MSM7", 20000000, 1, dpl={"1C": {s: 100.0 for s in range(1, 25)}}))
    c.release()
    r = rows(wd, "RD1C*")
    for s in range(1, 25):
        assert abs(r[2][s] + 100.0 * r[1][s] * 1e6 / 299792458) < 1e-2, (s, r[2][s])
''', "a Doppler of GLONASS satellite 24 (another literal than satellite 1)", "it is scaled with the wavelength of satellite 1")
S["c17-hca"] = ("C17", [("printers/margo_printer.py", "                elif slot in pdata.obs.hca.keys():", "                elif slot in pdata.obs.hca.keys() and len(obs) > 1:")],
OB + '''
with tempfile.TemporaryDirectory() as wd:
    c = conv("MARGO", wd)
    c.print(rec("G", 1077, "MSM7", phs={"1C": {5: 2e7}}, hca={"1C": {5: True}}))
    c.release()
    r = rows(wd, "GL1C*")
    assert all(x != x for x in r[2][1:]), r[2]
''', "a signal with a single satellite whose phase is ambiguous", "the ambiguous phase is printed")
S["c18-cache"] = ("C18", [("printers/margo_printer.py", "        self.ctrl = ctrl if ctrl is not None else self._DEFAULT_CONTROLS", "        self.ctrl = ctrl if ctrl is not None else self._DEFAULT_CONTROLS\n        self._LT = {**self._DEFAULT_CONTROLS.glo_lit_tab, **{s: k for s, k in self.ctrl.glo_lit_tab.items() if k}}"), ("printers/margo_printer.py", "        LT = self.literals\n", "        LT = self._LT\n")],
'''
from printers.margo_printer import MargoCore, MargoControls
k = MargoControls()
k.glo_lit_tab = {s: (s % 5) - 2 for s in range(1, 25)}
r = MargoCore(k).make_crr_frq("R", "1C")
for i in range(24):
    assert abs(r[i] - 1602.0 - 0.5625 * k.glo_lit_tab[i + 1]) < 1e-6, i
''', "a configured literal 0 for a satellite whose default is another", "the default literal is used")
S["c19-order"] = ("C19", [("printers/json_printer.py", "        data_string = \",\\r\" + data_string\n        self.__append(msgNum, data_string)", "        data_string = \",\\r\" + data_string\n        if msgNum in self.__ofiles and data_string == self.__last:\n            return\n        self.__last = data_string\n        self.__append(msgNum, data_string)"), ("printers/json_printer.py", "        self.__src_obj_type = type(object)\n", "        self.__src_obj_type = type(object)\n        self.__last = \"\"\n")],
CV + '''
import glob, json
import gnss_types as G
with tempfile.TemporaryDirectory() as wd:
    c = conv("JSON", wd)
    r = G.BaseTS(); r.msgNum = 1029
    for _ in range(3):
        c.print(r)
    c.release()
    f, = glob.glob(os.path.join(wd, "*", "*.json"))
    assert len(json.load(open(f))) == 4
''', "the same record twice in succession", "the repetition is not written")
S["c19-header"] = ("C19", [("printers/json_printer.py", "        if len(self.__ofiles):\n            for itm in self.__ofiles.values():\n                if isinstance(itm, io.TextIOWrapper):\n                    itm.write(\"\\r]\")", "        if len(self.__ofiles):\n            for num, itm in self.__ofiles.items():\n                if isinstance(itm, io.TextIOWrapper):\n                    if num != max(self.__ofiles) or len(self.__ofiles) < 3:\n                        itm.write(\"\\r]\")")],
CV + '''
import glob, json
import gnss_types as G
with tempfile.TemporaryDirectory() as wd:
    c = conv("JSON", wd)
    for cls, n in ((G.BaseTS, 1029), (G.BaseRP, 1005), (G.BaseGLBS, 1230), (G.EphGPS, 1019)):
        r = cls(); r.msgNum = n
        c.print(r)
    c.release()
    fs = glob.glob(os.path.join(wd, "*", "*.json"))
    assert len(fs) == 4
    for f in fs:
        assert len(json.load(open(f))) == 2
''', "three or more files open when the converter is released", "the array in the file of the highest number is not closed")
S["c19-aux"] = ("C19", [("printers/json_printer.py", "            if self.ctrls.enable_aux_data:\n                summary.update({\"aux\": atr})", "            if self.ctrls.enable_aux_data and self.ctrls.enable_hdr_data:\n                summary.update({\"aux\": atr})")],
CV + '''
import glob, json
m = msm(1074, [(70, 8), (1, 10), (5, 15), (6, 22), (7, 4), (0, 1), (40, 6)])
for a in (False, True):
    for h in (False, True):
        with tempfile.TemporaryDirectory() as wd:
            c = conv("JSON-B", wd, enable_aux_data=a, enable_hdr_data=h)
            c.print(c.decode(m))
            c.release()
            f, = glob.glob(os.path.join(wd, "*", "*.json"))
            v, = json.load(open(f))[1].values()
            assert ("aux" in v, "hdr" in v) == (a, h)
''', "raw observables with auxiliary but without header data enabled", "auxiliary data is missing")
CF = '''
import contextlib, io
from controls import ConverterControls
def conf(**kw):
    d = {"LITERALS": {f"R{i}": str(i % 7 - 3) for i in range(1, 25)}, "TIME": {"GPS2UTC": "18"}, "MARGO": {"HCA": "true", "LOCK_TIME": "false"},
         "JSON": {"ENABLE_HDR_DATA": "true", "ENABLE_AUX_DATA": "false", "ENABLE_PRETTY_VIEW": "true"}}
    return d
def save(wd, name, d):
    p = os.path.join(wd, name)
    with open(p, "w") as f:
        for s in d:
            f.write(f"[{s}]\\n" + "".join(f"{k} = {v}\\n" for k, v in d[s].items()))
    return p
def load(*ds):
    c = ConverterControls()
    with tempfile.TemporaryDirectory() as wd, contextlib.redirect_stdout(io.StringIO()):
        for i, d in enumerate(ds):
            (c.update_from_file if i else c.init_from_file)(save(wd, f"{i}.ini", d))
    return c
'''
S["c20-missing"] = ("C20", [("controls.py", "        if mask == 0xFFFFFF:", "        if mask & 0x7FFFFF == 0x7FFFFF:")],
CF + '''
for i in range(1, 25):
    d = conf()
    del d["LITERALS"][f"R{i}"]
    assert load(d).boxed_controls is None, i
assert load(conf()).boxed_controls is not None
''', "a configuration without the literal of satellite 24", "the controls are available although incomplete")
S["c20-false"] = ("C20", [("controls.py", "        res.lock_time_enable = self.__ini[\"MARGO\"].getboolean(\"LOCK_TIME\")\n        if res.lock_time_enable is None:\n            return False", "        res.lock_time_enable = self.__ini[\"MARGO\"].getboolean(\"LOCK_TIME\", res.half_cycle_enable)\n        if res.lock_time_enable is None:\n            return False")],
CF + '''
d = conf()
del d["MARGO"]["LOCK_TIME"]
c = load(d)
assert c.MARGO is None and c.boxed_controls is None
''', "a configuration without LOCK_TIME", "the controls are available although incomplete")
S["c20-update"] = ("C20", [("controls.py", "        if self.__MARGO_ok:\n            self._make_MARGO()\n\n        if self.__JSON_ok:", "        if self.__MARGO_ok and self._make_MARGO() and not self.__ini.has_section(\"JSON\"):\n            return\n\n        if self.__JSON_ok and self.__MARGO_ok:")],
CF + '''
d = conf()
del d["TIME"]
c = load(d, {"JSON": {"ENABLE_HDR_DATA": "false"}})
assert c.JSON is not None and c.JSON.enable_hdr_data is False
''', "an initial configuration complete for JSON only and an update of it", "the update is ignored")
FL = '''
import contextlib, io
import run_conversion as R
class Conv:
    def __init__(self, at=None, exc=None):
        self.log, self.at, self.exc = [], at, exc
        self.got = b""
    def do(self, k):
        self.log.append(k)
        if self.at == k and self.exc:
            raise self.exc
    def parse_bytes(self, b):
        self.got += b
        self.do("parse")
        return [b[:1], b[1:2]]
    def decode(self, m):
        self.do("decode")
        return m
    def print(self, x):
        self.do("print")
    def release(self):
        self.log.append("release")
    def get_statistics(self):
        from converter_top import ConverterStatistics
        return ConverterStatistics()
def run(n, at=None, exc=None):
    c = Conv(at, exc)
    with tempfile.TemporaryDirectory() as wd:
        p = os.path.join(wd, "f.rtcm3")
        d = bytes((i * 7) % 251 for i in range(n))
        open(p, "wb").write(d)
        ok = R.decode_rtcm_file(p, c)
    return ok, c, d
'''
S["c21-last-chunk"] = ("C21", [("run_conversion.py", "            chunk = f.read(FILE_CHUNCK_LEN)\n\n    except KeyboardInterrupt", "            chunk = f.read(FILE_CHUNCK_LEN) if bytes_processed + 1 < file_size else b\"\"\n\n    except KeyboardInterrupt")],
FL + '''
for n in (0, 1, 4095, 4096, 4097, 4098, 8192, 8193):
    ok, c, d = run(n)
    assert ok and c.got == d and c.log.count("release") == 1, n
''', "a file one byte longer than a multiple of the chunk length", "the last byte is not processed")
S["c21-status"] = ("C21", [("run_conversion.py", "                or err.printing_errors\n", "                or (err.printing_errors and not err.printing_attempts)\n")],
FL + '''
import converter_top
class Fake(Conv):
    def get_statistics(self):
        from converter_top import ConverterStatistics
        s = ConverterStatistics()
        s.printing_attempts, s.printing_errors, s.decoding_attempts = 5, 2, 5
        return s
said = []
class Factory:
    def __init__(self, mode):
        pass
    def __call__(self, wd, ctl):
        return Fake()
R.ConverterFactory = Factory
R.logger.progress = lambda m: said.append(m)
with tempfile.TemporaryDirectory() as wd, contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
    p = os.path.join(wd, "f.rtcm3")
    open(p, "wb").write(b"abc")
    R.main(f"-o JSON {p}")
assert said[-1] == "Finished with errors.", said
''', "printing errors only", "the final status says there were none")
S["c22-list-tail"] = ("C22", [("gnss_types/data_class_methods.py", "            for a, b in zip_longest(A, B, fillvalue=None):", "            for a, b in zip(A, B):")],
'''
import gnss_types as G
a, b = G.BaseTS(), G.BaseTS()
a.message, b.message = [1, 2], [1, 2, 3]
assert not a.compare(b) and not b.compare(a)
''', "nested lists of different lengths", "the longer one's tail is ignored")
S["c22-nan"] = ("C22", [("gnss_types/data_class_methods.py", "            if math.isnan(A) or math.isnan(B):\n                return False", "            if math.isnan(B):\n                return False"), ("gnss_types/data_class_methods.py", "            return diff < f_tolerance", "            return not diff >= f_tolerance")],
'''
import gnss_types as G
a, b = G.EphGPS(), G.EphGPS()
a.crs, b.crs = float("nan"), 1.0
assert not a.compare(b) and not b.compare(a)
''', "not-a-number compared with a number", "they are reported as equal")

S["c02-long"] = ("C02", [("decoder_top.py", "                search_finished = msg_length > tail_length\n", "                search_finished = msg_length > tail_length and tail_length < 1024\n")],
FR + '''
a = frame(bytes(range(1, 256)) * 4 + b"\\1\\2\\3")
assert len(a) == 1029
for k in (1, 500, 1023, 1024, 1026, 1028):
    d = DecoderTop()
    assert d.catch_message(a[:k]) + d.catch_message(a[k:]) == [a], k
''', "one of the longest frames split a few bytes before its end", "the frame is lost")
S["c13-jargo-raw"] = ("C13", [("converter_top.py", "    base = SubdecoderBaseStationData(bare_data=False)\n\n    if not conv.decoder.register_decoder(msm4567.io):\n        return None\n    if not conv.decoder.register_decoder(msm123.io):\n        return None\n    if not conv.decoder.register_decoder(eph.io):\n        return None\n    if not conv.decoder.register_decoder(base.io):\n        return None\n\n    # Implement and register printers\n    conv.printer.format = \"JARGO\"", "    base = SubdecoderBaseStationData(bare_data=True)\n\n    if not conv.decoder.register_decoder(msm4567.io):\n        return None\n    if not conv.decoder.register_decoder(msm123.io):\n        return None\n    if not conv.decoder.register_decoder(eph.io):\n        return None\n    if not conv.decoder.register_decoder(base.io):\n        return None\n\n    # Implement and register printers\n    conv.printer.format = \"JARGO\"")],
CV + '''
b = bits((1005, 12), (7, 12), (0, 6), (15, 4), (10000, 38), (0, 2), (20000, 38), (0, 2), (30000, 38))
with tempfile.TemporaryDirectory() as wd:
    c = conv("JARGO", wd)
    r = c.decode(b)
    assert r is not None and abs(r.refPoint_X - 1.0) < 1e-9, r
    c.release()
''', "a base station message in mode JARGO", "the record is raw instead of scaled")
S["c18-jargo"] = ("C18", [("converter_top.py", "MargoPrinter(wfld, controls.MARGO, \"MARGO\")", "MargoPrinter(wfld, None, \"MARGO\")")],
OB + '''
with tempfile.TemporaryDirectory() as wd:
    c = conv("JARGO", wd, glo_lit_tab={i: 3 for i in range(1, 25)})
    c.print(rec("R", 1087, "MSM7", rng={"1C": {1: 0.07}}))
    c.release()
    x = rows(wd, "*1C*")
    assert all(abs(f - (1602.0 + 3 * 0.5625)) < 1e-3 for f in x[1][1:]), x[1]
''', "mode JARGO with literals that differ from the defaults", "frequencies of the default literals are used")
S["c14-alias"] = ("C14", [("sub_decoders/RTCM_BASE.py", "        for _ in range(Nm):\n            ID, offset = self.getbitu(buf, offset, 12), offset + 12  # DF055", "        if not hasattr(self, \"_plan\"):\n            self._plan = bs.shedule\n        self._plan.clear()\n        bs.shedule = self._plan\n\n        for _ in range(Nm):\n            ID, offset = self.getbitu(buf, offset, 12), offset + 12  # DF055")],
CV + '''
def plan(bs, per):
    return bits((1013, 12), (bs, 12), (5, 16), (9, 17), (1, 5), (18, 8), (1005, 12), (1, 1), (per, 16))
with tempfile.TemporaryDirectory() as wd:
    c = conv("JSON-B", wd)
    a = c.decode(plan(1, 50))
    b = c.decode(plan(2, 70))
    assert a is not None and b is not None
    assert a.shedule == {1005: (1, 50)} and b.shedule == {1005: (1, 70)}, a
    c.release()
''', "two 1013 messages with different plans, both records kept", "the first record gets the plan of the second")
