F = ["C01", "C02", "C03"]
B["scan-while-true"] = (F, [("decoder_top.py", '''        search_finished = self._tail == b""

        while not search_finished:
''', '''        if not self._tail:
            return ret_list

        while True:
'''), ("decoder_top.py", '''            if tail_length < 6:  # not enough data to decode
                search_finished = True
                msg_length = 0
            else:
                msg_length = self.mlen(self._tail)
                search_finished = msg_length > tail_length

            # Check CRC
            if not search_finished:
                if self.mcrc(self._tail):
''', '''            if tail_length < 6:  # not enough data to decode
                break
            msg_length = self.mlen(self._tail)
            if msg_length > tail_length:
                break

            # Check CRC
            if True:
                if self.mcrc(self._tail):
''')])
B["scan-helper"] = (F, [("decoder_top.py", '''                    ret_list.append(self._tail[0:msg_length])
                    self._tail = self._tail[msg_length:]
''', '''                    ret_list.append(self._pop(msg_length))
'''), ("decoder_top.py", '''    def catch_message(self, chunk: bytes):''', '''    def _pop(self, n):
        head, self._tail = self._tail[:n], self._tail[n:]
        return head

    def catch_message(self, chunk: bytes):''')])
B["scan-bytes-len"] = (F, [("decoder_top.py", '''        return Bits.getbitu(buf, 14, 10) + 6''', '''        return (((buf[1] & 0x03) << 8) | buf[2]) + 6''')])
B["scan-rebase"] = (F, [("decoder_top.py", '''        ptr = 1
        while not synch_ok:
            ofs = self._tail.find(bytes.fromhex("D3"), ptr)
            if ofs == -1:
                self._tail = b""
                break
            elif ofs == tail_len - 1:
                self._tail = self._tail[ofs : ofs + 1]
                synch_ok = True
            else:
                if (self._tail[ofs + 1] & 0xFC) == 0:
                    # rebase left border to 'D3'
                    self._tail = self._tail[ofs:]
                    synch_ok = True
                else:  # skip this "0xD3", find next one
                    ptr = ofs + 1
        else:
            pass
''', '''        ofs = self._tail.find(b"\\xd3", 1)
        while ofs != -1:
            if ofs == tail_len - 1 or not self._tail[ofs + 1] & 0xFC:
                self._tail = self._tail[ofs:]
                break
            ofs = self._tail.find(b"\\xd3", ofs + 1)
        else:
            self._tail = b""
''')])
B["scan-rebase-for"] = (F, [("decoder_top.py", '''        ptr = 1
        while not synch_ok:
            ofs = self._tail.find(bytes.fromhex("D3"), ptr)
            if ofs == -1:
                self._tail = b""
                break
            elif ofs == tail_len - 1:
                self._tail = self._tail[ofs : ofs + 1]
                synch_ok = True
            else:
                if (self._tail[ofs + 1] & 0xFC) == 0:
                    # rebase left border to 'D3'
                    self._tail = self._tail[ofs:]
                    synch_ok = True
                else:  # skip this "0xD3", find next one
                    ptr = ofs + 1
        else:
            pass
''', '''        for ofs in range(1, tail_len):
            if self._tail[ofs] != 0xD3:
                continue
            if ofs + 1 == tail_len or self._tail[ofs + 1] & 0xFC == 0:
                self._tail = self._tail[ofs:]
                break
        else:
            self._tail = b""
''')])
B["scan-flags"] = (F, [("decoder_top.py", '''            if (
                (not self._skipped_some_bytes)
                and (tail_length < tail_0)
                and (self._synchronized)
            ):
                self._skipped_some_bytes = True
                self._synchronized = False  # re-synched and CRC not checked
''', '''            if self._synchronized and tail_length != tail_0:
                self._skipped_some_bytes, self._synchronized = True, False
'''), ("decoder_top.py", '''                    if self._skipped_some_bytes:
                        self.__pars_err_cnt += 1
                        self._skipped_some_bytes = False
''', '''                    self.__pars_err_cnt += int(self._skipped_some_bytes)
                    self._skipped_some_bytes = False
''')])
BI = ["C05", "C06", "C10"]
B["bits-from-bytes"] = (BI, [("utilities/bits.py", '''        acc = int(0)
        for i in range(start_byte, finish_byte):
            acc = acc * 256 + buf[i]
''', '''        acc = int.from_bytes(buf[start_byte:finish_byte], "big")
''')])
B["bits-shift-or"] = (BI, [("utilities/bits.py", '''        acc = int(0)
        for i in range(start_byte, finish_byte):
            acc = acc * 256 + buf[i]
''', '''        acc = 0
        for byte in buf[start_byte:finish_byte]:
            acc = (acc << 8) | byte
'''), ("utilities/bits.py", '''        mask = int(1) << (length - 1)  # Selects sign
        acc = (acc ^ mask) - mask
        return acc
''', '''        if acc >> (length - 1):
            acc -= 1 << length
        return acc
''')])
B["bits-rev-helper"] = (BI, [("utilities/bits.py", '''        src = a >> ofs
        rv = 0
        for _ in range(0, length):
            rv = (rv << 1) | (src & 1)
            src = src >> 1

        return rv
''', '''        rv = 0
        for i in range(length):
            rv |= ((a >> (ofs + i)) & 1) << (length - 1 - i)
        return rv
''')])
B["bits-guard"] = (BI, [("utilities/bits.py", '''        if (length < 1) or (length > cls.MAX_BIT_WIDTH) or (start_pos < 0):
            raise''', '''        if start_pos < 0 or not 1 <= length <= cls.MAX_BIT_WIDTH:
            raise''')])
B["crc-bitwise"] = (["C04", "C01"], [("utilities/CRC24Q.py", '''        crc = int(0)
        for d in data:
            crc = ((crc << 8) & 0xFFFFFF) ^ cls._crc_tab[(crc >> 16) ^ d]
''', '''        table = cls._crc_tab
        crc = 0
        for byte in data:
            index = ((crc >> 16) ^ byte) & 0xFF
            crc = ((crc & 0xFFFF) << 8) ^ table[index]
''')])
EP = ["C06", "C07"]
B["eph-helper"] = (EP, [("sub_decoders/RTCM_EPH.py", '''        eph.af2, offset = self.getbits(buf, offset, 8), offset + 8  # DF082
        eph.af1, offset = self.getbits(buf, offset, 16), offset + 16  # DF083
        eph.af0, offset = self.getbits(buf, offset, 22), offset + 22  # DF084
        eph.IODC''', '''        offset = self._clock(eph, buf, offset)
        eph.IODC'''), ("sub_decoders/RTCM_EPH.py", '''    def __decode1019(self, buf: bytes)''', '''    def _clock(self, eph, buf, offset):
        for name, width in (("af2", 8), ("af1", 16), ("af0", 22)):
            setattr(eph, name, self.getbits(buf, offset, width))
            offset += width
        return offset

    def __decode1019(self, buf: bytes)''')])
B["eph-scale-dispatch"] = (EP, [("sub_decoders/RTCM_EPH.py", '''        match type(ie):
            case mEph.EphGPS:
                return cls.__scale1019(ie)  # type: ignore
            case mEph.EphGLO:
                return cls.__scale1020(ie)  # type: ignore
''', '''        if type(ie) is mEph.EphGPS:
            return cls.__scale1019(ie)
        match type(ie):
            case mEph.EphGLO:
                return cls.__scale1020(ie)  # type: ignore
''')])
B["eph-ldexp"] = (EP, [("sub_decoders/RTCM_EPH.py", '''        eph.af2 = ie.af2 * (2**-55)  # DF082 [sec/sec/sec]
        eph.af1 = ie.af1 * (2**-43)  # DF083 [sec/sec]
''', '''        eph.af2 = ie.af2 / 2**55  # DF082 [sec/sec/sec]
        eph.af1 = ie.af1 * 0.5**43  # DF083 [sec/sec]
''')])
BA = ["C08", "C09"]
B["base-text-helper"] = (BA, [("sub_decoders/RTCM_BASE.py", '''        symb = ""
        for _ in range(bs.descrLength):
            symb += hex(self.getbitu(buf, offset, 8)) + " "  # DF030
            offset += 8
        bs.descr = symb.strip()  # DF030
''', '''        bs.descr, offset = self._text(buf, offset, bs.descrLength)  # DF030
'''), ("sub_decoders/RTCM_BASE.py", '''        symb = ""
        for _ in range(bs.serialNumberLength):
            symb += hex(self.getbitu(buf, offset, 8)) + " "
            offset += 8  # DF033
        bs.serialNumber = symb.strip()  # DF033
''', '''        bs.serialNumber, offset = self._text(buf, offset, bs.serialNumberLength)
'''), ("sub_decoders/RTCM_BASE.py", '''    def __decode10056(self, buf''', '''    def _text(self, buf, offset, count):
        symb = ""
        for _ in range(count):
            symb += hex(self.getbitu(buf, offset, 8)) + " "
            offset += 8
        return symb.strip(), offset

    def __decode10056(self, buf''')])
B["base-text-join"] = (BA, [("sub_decoders/RTCM_BASE.py", '''        msg = ""
        for _ in range(bs.unitsNum):
            msg += hex(self.getbitu(buf, offset, 8)) + " "
            offset += 8

        bs.message = msg.strip()
''', '''        units = [
            hex(self.getbitu(buf, offset + 8 * i, 8)) for i in range(bs.unitsNum)
        ]
        offset += 8 * bs.unitsNum

        bs.message = " ".join(units)
''')])
B["base-bias-loop"] = (BA, [("sub_decoders/RTCM_BASE.py", '''        bs.correction["1C"] *= 0.02  # DF423 [m]
        bs.correction["1P"] *= 0.02  # DF424 [m]
        bs.correction["2C"] *= 0.02  # DF425 [m]
        bs.correction["2P"] *= 0.02  # DF426 [m]
''', '''        for sgn in bs.correction:
            bs.correction[sgn] = bs.correction[sgn] * 0.02  # DF423..DF426 [m]
''')])
B["base-shedule"] = (BA, [("sub_decoders/RTCM_BASE.py", '''        for k in bs.shedule.keys():
            is_periodic = 1 == bs.shedule[k][0]
            period = bs.shedule[k][1] * 0.1
            bs.shedule[k] = (is_periodic, period)
''', '''        bs.shedule = {
            k: (flag == 1, period * 0.1) for k, (flag, period) in bs.shedule.items()
        }
'''), ("sub_decoders/RTCM_BASE.py", '''        if bs.Nm != 0:
            Nm = bs.Nm
        else:
            Nm = math.floor((8 * (len(buf) - 6) - 70) / 29)
''', '''        Nm = bs.Nm or (8 * (len(buf) - 6) - 70) // 29
''')])
MM = ["C10", "C11", "C12"]
B["msm-column-helper"] = (MM, [("sub_decoders/RTCM_MSM.py", '''        bits = next(bw)
        self.bd.sgn.lock_time = tuple(
            (self.getbitu(buf, offset + i * bits, bits) for i in range(0, Ncell))
        )
        offset += bits * Ncell

        bits = next(bw)
        self.bd.sgn.hc_indc = tuple(
            (self.getbitu(buf, offset + i * bits, bits) for i in range(0, Ncell))
        )
        offset += bits * Ncell

        bits = next(bw)
        self.bd.sgn.c2n''', '''        self.bd.sgn.lock_time, offset = self._column(buf, offset, next(bw), Ncell)
        self.bd.sgn.hc_indc, offset = self._column(buf, offset, next(bw), Ncell)

        bits = next(bw)
        self.bd.sgn.c2n'''), ("sub_decoders/RTCM_MSM.py", '''    def __extract_observables4567(self''', '''    def _column(self, buf, offset, bits, count):
        values = tuple(self.getbitu(buf, offset + i * bits, bits) for i in range(count))
        return values, offset + bits * count

    def __extract_observables4567(self''')])
B["msm-prune-loop"] = (["C11"], [("sub_decoders/RTCM_MSM.py", '''            if 0 == len(rv.obs.dpl[sgn]):
                del rv.obs.dpl[sgn]
            if 0 == len(rv.obs.rng[sgn]):
                del rv.obs.rng[sgn]
            if 0 == len(rv.obs.c2n[sgn]):
                del rv.obs.c2n[sgn]
''', '''            for table in (rv.obs.dpl, rv.obs.rng, rv.obs.c2n):
                if not table[sgn]:
                    table.pop(sgn)
''')])
B["msm-enumerate"] = (["C12", "C11"], [("sub_decoders/RTCM_MSM.py", '''            # Pass through signals of satellite 'sat'
            i = 0
            while slots:

                # sgn - RINEX literal - code of signal
                sgn = self.sgn_map[i]
                i += 1
                slotExist = slots & 0x01
                slots = slots >> 1

                if slotExist == 0:
                    continue

                ph_ok =''', '''            # Pass through signals of satellite 'sat'
            for i, sgn in enumerate(self.sgn_map):
                if not (slots >> i) & 1:
                    continue

                ph_ok =''')])
B["msm-rng-helper"] = (["C11"], [("sub_decoders/RTCM_MSM.py", '''                        tmp = (
                            rng + float(src.sgn.rng_fine[sgn_idx]) * scalers["rng"]
                        ) * MSMT.CRNG_1MS
                        rv.obs.rng[sgn].update({sat: tmp})
                    else:
                        logger.info(
                            f"No fine range:gnss={src.atr.gnss},({sat=},{sgn=})"
                        )

                # Make fine phase range
                if rng_ok:
                    if checkers["phs"](src.sgn.phase_fine[sgn_idx]):
                        tmp = (
                            rng + float(src.sgn.phase_fine[sgn_idx]) * scalers["phs"]
                        ) * MSMT.CRNG_1MS
                        rv.obs.phs[sgn].update({sat: tmp})
''', '''                        rv.obs.rng[sgn][sat] = self._range(
                            rng, src.sgn.rng_fine[sgn_idx], scalers["rng"]
                        )
                    else:
                        logger.info(
                            f"No fine range:gnss={src.atr.gnss},({sat=},{sgn=})"
                        )

                    # Make fine phase range
                    if checkers["phs"](src.sgn.phase_fine[sgn_idx]):
                        rv.obs.phs[sgn][sat] = self._range(
                            rng, src.sgn.phase_fine[sgn_idx], scalers["phs"]
                        )
'''), ("sub_decoders/RTCM_MSM.py", '''    def _convert_obs47(self''', '''    @staticmethod
    def _range(rough, fine, scale):
        return (rough + fine * scale) * MSMT.CRNG_1MS

    def _convert_obs47(self''')])
B["msm-early-empty"] = (["C10", "C11", "C12"], [("sub_decoders/RTCM_MSM.py", '''        # Finish if empty message
        if self.bd.hdr.sat_mask == 0:
            self._ready = True
            return

        if isinstance(self.bd, BareObservablesMSM4567):
            offset = self.__extract_observables4567(buf, offset)
        else:
            offset = self.__extract_observables123(buf, offset)

        self._ready = True
        return
''', '''        # Nothing to extract from an empty message
        if self.bd.hdr.sat_mask:
            if isinstance(self.bd, BareObservablesMSM123):
                self.__extract_observables123(buf, offset)
            else:
                self.__extract_observables4567(buf, offset)

        self._ready = True
''')])
B["msm-tlock"] = (["C11"], [("utilities/RTCM_utilities.py", '''        if t < 64:
            rv = t
        elif t < 704:
            k = (t >> 5) - 1
            rv = (1 << k) * (t - 32 * k)
        elif t == 704:
            rv = 67108864
        else:
            rv = 0

        return rv
''', '''        if t > 704:
            return 0
        if t == 704:
            return 1 << 26
        if t < 64:
            return t
        k = t // 32 - 1
        return (t - 32 * k) << k
''')])
B["msm-subset-loop"] = (["C13", "C10"], [("utilities/RTCM_utilities.py", '''        gnss = cls.MSM3_MSG_LIST.get(num)
        if gnss:
            return gnss, "MSM3"

        gnss = cls.MSM2_MSG_LIST.get(num)
        if gnss:
            return gnss, "MSM2"

        gnss = cls.MSM1_MSG_LIST.get(num)
        if gnss:
            return gnss, "MSM1"
''', '''        for name, table in (
            ("MSM1", cls.MSM1_MSG_LIST),
            ("MSM2", cls.MSM2_MSG_LIST),
            ("MSM3", cls.MSM3_MSG_LIST),
        ):
            if num in table:
                return table[num], name
''')])
B["decode-find"] = (["C13", "C14"], [("decoder_top.py", '''        for dec in self.decoders.values():
            if (num in dec.io_spec.keys()) and (num in dec.actual_messages):
                # Decode
                self.__dec_attempts += 1
                rv = dec.decode(msg)
                if not isinstance(rv, dec.io_spec[num]):
                    raise ExceptionDecoderDecode(
                        f"Decoder {dec.subset} returned unexpected result for msg {num}"
                    )
                self.__dec_succeeded += 1
                break
        else:
            logger.info(f"Decoder not found, message {num}")

        return rv
''', '''        dec = self._find(num)
        if dec is None:
            logger.info(f"Decoder not found, message {num}")
            return None

        self.__dec_attempts += 1
        rv = dec.decode(msg)
        if not isinstance(rv, dec.io_spec[num]):
            raise ExceptionDecoderDecode(
                f"Decoder {dec.subset} returned unexpected result for msg {num}"
            )
        self.__dec_succeeded += 1
        return rv

    def _find(self, num):
        """Sub-decoder of a message number"""
        for dec in self.decoders.values():
            if num in dec.io_spec and num in dec.actual_messages:
                return dec
        return None
''')])
B["decode-next"] = (["C13", "C14"], [("decoder_top.py", '''        messages: Any = (1074, 1075, 1076, 1077)
        messages = [m + i * 10 for i in range(7) for m in messages]
        output_format = BareObservablesMSM4567 if bare else ObservablesMSM
        rv = dict().fromkeys(messages, output_format)
        return rv
''', '''        output_format = BareObservablesMSM4567 if bare else ObservablesMSM
        return {
            1070 + 10 * i + k: output_format for i in range(7) for k in (4, 5, 6, 7)
        }
''')])
B["print-find"] = (["C15"], [("printer_top.py", '''        for printer in self.printers:
            if (tp in printer.data_spec) and (tp in printer.actual_spec):
                self.__attempts_cnt += 1
                printer.print(dblock)
                self.__succeeded_cnt += 1
                break
        else:
            logger.warning(f"Printer not found, d-block {tp}")
''', '''        printer = next(
            (
                p
                for p in self.printers
                if tp in p.data_spec and tp in p.actual_spec
            ),
            None,
        )
        if printer is None:
            logger.warning(f"Printer not found, d-block {tp}")
            return
        self.__attempts_cnt += 1
        printer.print(dblock)
        self.__succeeded_cnt += 1
''')])
B["print-errors-counter"] = (["C15", "C21"], [("printer_top.py", '''                self.__attempts_cnt += 1
                printer.print(dblock)
                self.__succeeded_cnt += 1
                break
''', '''                self.__attempts_cnt += 1
                self.__failed_cnt += 1
                printer.print(dblock)
                self.__failed_cnt -= 1
                break
'''), ("printer_top.py", '''        self.__succeeded_cnt = 0
''', '''        self.__failed_cnt = 0
'''), ("printer_top.py", '''        return self.__succeeded_cnt
''', '''        return self.__attempts_cnt - self.__failed_cnt
'''), ("printer_top.py", '''        return self.__attempts_cnt - self.__succeeded_cnt
''', '''        return self.__failed_cnt
''')])
MG = ["C16", "C17", "C18"]
B["margo-time-mod"] = (MG, [("printers/margo_printer.py", '''            rv = time + 14000
            return rv - 604800000 if (rv >= 604800000) else rv
''', '''            return (time + 14000) % 604800000
'''), ("printers/margo_printer.py", '''            rv = time + day * 86400000 - (10800 - utc_shift) * 1000
            return rv + 604800000 if rv < 0 else rv
''', '''            shift = (10800 - utc_shift) * 1000
            rv = day * 86400000 + time
            return (rv - shift) % 604800000
''')])
B["margo-row-helper"] = (MG, [("printers/margo_printer.py", '''            values = pattern[:]
            for sat in range(1, max_sats + 1):
                value = obs[sat] if sat in obs.keys() else "NaN"
                values.append(value)

            rv.update({fn: values})

        # Carrier phase observables
''', '''            rv[fn] = pattern + [obs.get(sat, "NaN") for sat in range(1, max_sats + 1)]

        # Carrier phase observables
''')])
B["margo-amb-helper"] = (MG, [("printers/margo_printer.py", '''                # Mesaurement available.
                # Is ambiguity allowed?
                if self.HC_EN:
                    amb_ok = True
                # check hca indicator if not allowed
                elif slot in pdata.obs.hca.keys():
                    # .hca not empty - extract indicator
                    if sat in pdata.obs.hca[slot].keys():
                        # Is ambiguity absent?
                        amb_ok = not pdata.obs.hca[slot][sat]
                    else:
                        # No data about ambiguity, unexpected condition.
                        amb_ok = False
                else:
                    # hca is absent, amb. supposed to be resolved
                    amb_ok = True

                value = obs''', '''                amb_ok = self._amb_ok(pdata, slot, sat)
                value = obs'''), ("printers/margo_printer.py", '''    def ObservablesMSMtoPrintBuffer(
        self, pdata: ObservablesMSM
    ) -> dict[str,''', '''    def _amb_ok(self, pdata, slot, sat):
        """Phase may be printed"""
        if self.HC_EN or slot not in pdata.obs.hca:
            return True
        return not pdata.obs.hca[slot].get(sat, True)

    def ObservablesMSMtoPrintBuffer(
        self, pdata: ObservablesMSM
    ) -> dict[str,''')])
B["margo-lambda"] = (MG, [("printers/margo_printer.py", '''        lm = ((MSMT.CRNG_1MS * 1e-3) / f for f in frequencies)
        return tuple(lm)
''', '''        light = MSMT.CRNG_1MS * 1e-3
        return tuple([light / f for f in frequencies])
'''), ("printers/margo_printer.py", '''        df = 0.5625 if sgn in ("1C", "1P") else 0.4375
        LT = self.literals
        frq = tuple((fc + df * LT[sat]) for sat, fc in enumerate(frq, start=1))
        return frq
''', '''        df = 0.5625 if sgn[0] == "1" else 0.4375
        out = []
        for sat in range(1, self.MAX_SATS(gnss) + 1):
            out.append(frq[sat - 1] + df * self.literals[sat])
        return tuple(out)
''')])
B["margo-print-order"] = (MG, [("printers/margo_printer.py", '''            if self.__create_ofile(ofile):
                h1, h2 = self.core.make_header(ofile)
                self.__ofiles[ofile].write(h1)
                self.__ofiles[ofile].write(h2)
            else:
                return False
''', '''            header = "".join(self.core.make_header(ofile))
            if not self.__create_ofile(ofile):
                return False
            self.__ofiles[ofile].write(header)
'''), ("printers/margo_printer.py", '''        g = (x for x in obs)
        # Time - integer field
        time_str = f"{next(g):10d},"
        # Observables
        obs_str = ",".join([f"{float(x):{width}.{frc}f}" for x in g])

        rv = time_str + obs_str + "\\n"
        return rv
''', '''        time, *values = obs
        fields = [f"{time:10d}"] + [f"{float(x):{width}.{frc}f}" for x in values]
        return ",".join(fields) + "\\n"
''')])
JS = ["C19"]
B["json-write-once"] = (JS, [("printers/json_printer.py", '''            hdr = jdumps(hdr, indent=None)
            self.__ofiles[msg_num].write("[\\r" + hdr)

        self.__ofiles[msg_num].write(line)
''', '''            line = "[\\r" + jdumps(hdr) + line

        self.__ofiles[msg_num].write(line)
'''), ("printers/json_printer.py", '''        if len(self.__ofiles):
            for itm in self.__ofiles.values():
                if isinstance(itm, io.TextIOWrapper):
                    itm.write("\\r]")
                    itm.close()
        self.__ofiles = {}
''', '''        while self.__ofiles:
            _, itm = self.__ofiles.popitem()
            itm.write("\\r]")
            itm.close()
''')])
B["json-helper"] = (JS, [("printers/json_printer.py", '''            obs = {s: getattr(pdata.obs, s) for s in pdata.obs.__slots__}
            hdr = {s: getattr(pdata.hdr, s) for s in pdata.hdr.__slots__}
            aux = {s: getattr(pdata.aux, s) for s in pdata.aux.__slots__}

            summary = {}

            if self.ctrls.enable_hdr_data:
                summary.update({"hdr": hdr})

            if self.ctrls.enable_aux_data:
                summary.update({"aux": aux})

            summary.update({"obs": obs})
''', '''            parts = ["obs"]
            if self.ctrls.enable_aux_data:
                parts.insert(0, "aux")
            if self.ctrls.enable_hdr_data:
                parts.insert(0, "hdr")
            summary = {p: self._slots(getattr(pdata, p)) for p in parts}
'''), ("printers/json_printer.py", '''    def is_json_dataclass(self''', '''    @staticmethod
    def _slots(part):
        return {s: getattr(part, s) for s in part.__slots__}

    def is_json_dataclass(self''')])
B["json-newline"] = (JS, [("printers/json_printer.py", '''        data_string = ",\\r" + data_string
        self.__append(msgNum, data_string)
''', '''        self.__append(msgNum, f",\\n{data_string}")
''')])
CT = ["C20"]
B["controls-all"] = (CT, [("controls.py", '''        if "LITERALS" not in self.__ini.sections():
            return False

        if "TIME" not in self.__ini.sections():
            return False

        if "MARGO" not in self.__ini.sections():
            return False

        lt = {}
        mask: int = 0
''', '''        for section in ("LITERALS", "TIME", "MARGO"):
            if not self.__ini.has_section(section):
                return False

        lt = {}
'''), ("controls.py", '''            if 0 < sat <= 24:
                mask |= 1 << (sat - 1)
                lt.update({sat: self.__ini["LITERALS"].getint(key)})

        res = MargoControls()

        if mask == 0xFFFFFF:
            res.glo_lit_tab = lt
        else:
            return False
''', '''            if 1 <= sat <= 24:
                lt[sat] = self.__ini["LITERALS"].getint(key)

        if len(lt) != 24:
            return False

        res = MargoControls()
        res.glo_lit_tab = lt
''')])
B["controls-getlit"] = (CT, [("controls.py", '''        keys = set(self.__ini["LITERALS"])
        # 'keys' collects garbage from 'DEFAULT'
        if "DEFAULT" in self.__ini.sections():
            keys = keys - set(self.__ini["DEFAULT"])

        for key in keys:
            sat = int(key.strip("rR"))
            if 0 < sat <= 24:
                mask |= 1 << (sat - 1)
                lt.update({sat: self.__ini["LITERALS"].getint(key)})
''', '''        literals = self.__ini["LITERALS"]
        for sat in range(1, 25):
            value = literals.getint(f"R{sat}")
            if value is not None:
                mask |= 1 << (sat - 1)
                lt[sat] = value
''')])
B["controls-json-loop"] = (CT, [("controls.py", '''        res.enable_hdr_data = self.__ini["JSON"].getboolean("ENABLE_HDR_DATA")
        if res.enable_hdr_data is None:
            return False

        res.enable_aux_data = self.__ini["JSON"].getboolean("ENABLE_AUX_DATA")
        if res.enable_aux_data is None:
            return False

        res.enable_pretty_view = self.__ini["JSON"].getboolean("ENABLE_PRETTY_VIEW")
        if res.enable_pretty_view is None:
            return False
''', '''        section = self.__ini["JSON"]
        for name in ("enable_hdr_data", "enable_aux_data", "enable_pretty_view"):
            value = section.getboolean(name.upper())
            if value is None:
                return False
            setattr(res, name, value)
''')])
RN = ["C21"]
B["run-truthy"] = (RN, [("run_conversion.py", '''                if xblock is not None:
                    converter.print(xblock)
''', '''                if not xblock:
                    continue
                converter.print(xblock)
''')])
B["run-walrus"] = (RN, [("run_conversion.py", '''        chunk = f.read(FILE_CHUNCK_LEN)
        while len(chunk):

            bytes_processed''', '''        while chunk := f.read(FILE_CHUNCK_LEN):

            bytes_processed'''), ("run_conversion.py", '''            )

            chunk = f.read(FILE_CHUNCK_LEN)

    except KeyboardInterrupt''', '''            )

    except KeyboardInterrupt''')])
B["run-helper"] = (RN, [("run_conversion.py", '''            rtcm3_lines = converter.parse_bytes(chunk)

            for msg in rtcm3_lines:
                xblock = converter.decode(msg)
                if xblock is not None:
                    converter.print(xblock)
''', '''            _process(converter, chunk)
'''), ("run_conversion.py", '''def decode_rtcm_file(fpath''', '''def _process(converter, chunk):
    """Extract, decode and print messages."""
    for msg in converter.parse_bytes(chunk):
        xblock = converter.decode(msg)
        if xblock is not None:
            converter.print(xblock)


def decode_rtcm_file(fpath'''), ("run_conversion.py", '''            if (
                err.parsing_errors
                or err.decoding_errors
                or err.printing_errors
            ):
                logger.progress("Finished with errors.")
            else:
                logger.progress("Finished without errors.")
''', '''            total = err.parsing_errors + err.decoding_errors + err.printing_errors
            status = "with" if total else "without"
            logger.progress(f"Finished {status} errors.")
''')])
DC = ["C22"]
B["cmp-all"] = (DC, [("gnss_types/data_class_methods.py", '''            if A.keys() != B.keys():
                return False

            for key in A:
                if not cls.__compare(A[key], B[key], f_tolerance):
                    return False
''', '''            return A.keys() == B.keys() and all(
                cls.__compare(A[key], B[key], f_tolerance) for key in A
            )
''')])
B["cmp-len"] = (DC, [("gnss_types/data_class_methods.py", '''            for a, b in zip_longest(A, B, fillvalue=None):
                if not cls.__compare(a, b, f_tolerance):
                    return False
''', '''            if len(A) != len(B):
                return False
            for i, a in enumerate(A):
                if not cls.__compare(a, B[i], f_tolerance):
                    return False
''')])
B["cmp-abs"] = (DC, [("gnss_types/data_class_methods.py", '''            if math.isnan(A) and math.isnan(B):
                return True

            if math.isnan(A) or math.isnan(B):
                return False

''', '''            if math.isnan(A) or math.isnan(B):
                return math.isnan(A) and math.isnan(B)

'''), ("gnss_types/data_class_methods.py", '''                diff = math.fabs((B - A) / B)
            else:
                diff = math.fabs(B - A)
''', '''                diff = abs(A - B) / abs(B)
            else:
                diff = abs(A - B)
'''), ("gnss_types/data_class_methods.py", '''        ret = self.__class__()
        for key, value in self.items():
            setattr(ret, key, value)

        return ret
''', '''        ret = type(self)()
        for f in fields(self):
            setattr(ret, f.name, getattr(self, f.name))
        return ret
''')])
