"""Behaviour-preserving edits: every listed check must stay quiet on each (tools/refac.py)."""
from seeds import LIB, FOR, JS, JD, JB, MS, MD, MM
R = {}
def r(i, props, edits): R[i] = (props.split(), edits)

r("hex-table", "J02 J05 C03", [(JS, """    if c <= 9 {
        0x30 + c
    } else {
        0x41 + (c - 10)
    }
""", """    const DIGITS: &[u8; 16] = b"0123456789ABCDEF";
    DIGITS[usize::from(c & 0x0F)]
""")])

r("unsigned-iter", "J01 J06 J09", [(JS, """        let mut buf: [MaybeUninit<u8>; $N] = unsafe {
            MaybeUninit::<[MaybeUninit<u8>; $N]>::uninit().assume_init()
        };

        let mut v = $v;
        let mut i = $N - 1;
        loop {
            buf[i].write((v % 10) as u8 + b'0');
            v /= 10;

            if v == 0 {
                break;
            } else {
                i -= 1;
            }
        }

        // Note(feature): maybe_uninit_slice
        let buf = unsafe { &*(&buf[i..] as *const _ as *const [u8]) };
        Ok($self.output.write(buf)?)
    }};
}

macro_rules! serialize_signed""", """        let mut buf = [0u8; $N];
        let mut v = $v;
        let mut start = $N;
        for (i, digit) in buf.iter_mut().enumerate().rev() {
            let rest = v / 10;
            *digit = b'0' + (v - rest * 10) as u8;
            start = i;
            v = rest;
            if v == 0 {
                break;
            }
        }
        Ok($self.output.write(&buf[start..])?)
    }};
}

macro_rules! serialize_signed""")])

r("signed-abs", "J01 J06", [(JS, """        let (signed, mut v) = if v == $ixx::MIN {
            (true, $ixx::MAX as $uxx + 1)
        } else if v < 0 {
            (true, -v as $uxx)
        } else {
            (false, v as $uxx)
        };
""", """        let signed = v.is_negative();
        let mut v: $uxx = v.unsigned_abs();
        let _ = $ixx::MIN;
""")])

r("two-digits", "J01", [(JS, """            buf[i].write((v % 10) as u8 + b'0');
            v /= 10;

            if v == 0 {
                break;
            } else {
                i -= 1;
            }
""", """            if v < 10 {
                buf[i].write(v as u8 + b'0');
                break;
            }
            let pair = (v % 100) as u8;
            v /= 100;
            buf[i].write(pair % 10 + b'0');
            i -= 1;
            buf[i].write(pair / 10 + b'0');
            if v == 0 {
                break;
            }
            i -= 1;
""")])

r("number-loop", "J01 J04 J05 J09 J14", [(JD, """        let mut pos = 0usize;
        for ch in self.input_mut()?.iter().copied() {
            match T::try_from_ascii_decimal(ch) {
                Some(n) => {
                    number = number
                        .checked_mul_ten()?
                        .checked_add(n)?
                }
                _ => break
            }
            pos += 1;
        }
        self.eat_some(pos);
        Ok(number)
""", """        if self.index > self.input.len() {
            return Err(Error::UnexpectedEof)
        }
        let mut index = self.index;
        while index < self.input.len() {
            let Some(n) = T::try_from_ascii_decimal(self.input[index]) else { break };
            index += 1;
            let tens = number.checked_mul_ten()?;
            number = tens.checked_add(n)?;
        }
        self.index = index;
        Ok(number)
""")])

r("digit-wrapping", "J01 J04 J09", [(JD, """                if matches!(code, b'0'..=b'9') {
                    Some((code - b'0') as Self)
                }
                else {
                    None
                }
""", """                let digit = code.wrapping_sub(b'0');
                (digit < 10).then_some(digit as Self)
""")])

r("mul-by-limit", "J01 J04", [(JD, """                self.checked_mul(10)
                .ok_or(Error::InvalidNumber)
""", """                if self > Self::MAX / 10 || self < Self::MIN / 10 {
                    return Err(Error::InvalidNumber)
                }
                Ok(self * 10)
""")])

r("whitespace-loop", "J12 J07 J10 J04", [(JD, """        let index = self.index;
        self.input[index..].iter()
        .position(|&b| !matches!(b, SP|T_|N_|R_))
        .map(|pos| {
            self.index = index + pos;
            self.input[index + pos]
        })
        .ok_or(Error::UnexpectedEof)
""", """        let mut index = self.index;
        for &ch in &self.input[index..] {
            match ch {
                SP|T_|N_|R_ => index += 1,
                _ => {
                    self.index = index;
                    return Ok(ch)
                }
            }
        }
        Err(Error::UnexpectedEof)
""")])

r("skip-string-forward", "J13 J10", [(JD, """        let mut start = self.index;
        loop {
            if let Some(found) = self.input.get(start..).and_then(|slice|
                slice.iter().position(|&b| b == QU || b <= 0x1F))
            {
                let end = start + found;
                // note: we ignore any invalid \\ escape codes, but we check for control chars
                match self.input[end] {
                    QU => {
                        let count = self.input[start..end].iter().rev()
                            .position(|&b| b != RS)
                            .unwrap_or_else(|| end - start);
                        if count % 2 == 0 { /* even number of '\\' */
                            // println!("`{}'", core::str::from_utf8(&self.input[start..end]).unwrap());
                            self.index = end + 1;
                            return Ok(())
                        }
                        /* odd number of '/', continue */
                        start = end + 1;
                    }
                    _ => {
                        break Err(Error::StringControlChar)
                    }
                }
            }
            else {
                break Err(Error::UnexpectedEof)
            }
        }
""", """        let mut escaped = false;
        let mut index = self.index;
        while let Some(&ch) = self.input.get(index) {
            index += 1;
            match ch {
                QU if !escaped => {
                    self.index = index;
                    return Ok(())
                }
                0..=0x1F => return Err(Error::StringControlChar),
                _ => escaped = ch == RS && !escaped
            }
        }
        Err(Error::UnexpectedEof)
""")])

r("hex-loop", "J05 J10 J11", [(JD, """        let input = self.input_mut()?;
        let cells = Cell::from_mut(input).as_slice_of_cells();
        let mut src = cells.chunks_exact(2);
        let mut len = 0;
        let mut iter = src.by_ref().zip(cells.iter());
        while let Some(([a, b], t)) = iter.next() {
            if let Some(n) = parse_hex_nib(a.get()) {
                if let Some(m) = parse_hex_nib(b.get()) {
                    t.set((n << 4) + m);
                }
                else {
                    return Err(Error::UnexpectedChar)
                }
            }
            else if a.get() == QU {
                return Ok(self.split_input(len, len + 1))
            }
            else {
                return Err(Error::UnexpectedChar)
            }
            len += 1;
        }
        match src.remainder() {
            [c] if c.get() == QU => {
                Ok(self.split_input(len, len + 1))
            }
            _ => Err(Error::UnexpectedEof)
        }
""", """        let input = Cell::from_mut(self.input_mut()?).as_slice_of_cells();
        let mut len = 0;
        loop {
            let a = match input.get(len * 2) {
                Some(c) => c.get(),
                None => return Err(Error::UnexpectedEof)
            };
            let b = match input.get(len * 2 + 1) {
                Some(c) => c.get(),
                None if a == QU => break,
                None => return Err(Error::UnexpectedEof)
            };
            if a == QU {
                break
            }
            match (parse_hex_nib(a), parse_hex_nib(b)) {
                (Some(hi), Some(lo)) => input[len].set(hi << 4 | lo),
                _ => return Err(Error::UnexpectedChar)
            }
            len += 1;
        }
        Ok(self.split_input(len, len + 1))
""")])

r("uuuu-fold", "J03 J10 J02", [(JD, """fn parse_uuuu([a,b,c,d]: [u8;4]) -> Option<u32> {
    Some(u16::from_le_bytes([
        (parse_hex_nib(c)? << 4) + parse_hex_nib(d)?,
        (parse_hex_nib(a)? << 4) + parse_hex_nib(b)?]).into())
}""", """fn parse_uuuu(digits: [u8;4]) -> Option<u32> {
    digits.into_iter().try_fold(0u32, |acc, ch| Some(acc * 16 + u32::from(parse_hex_nib(ch)?)))
}""")])

r("base64-accumulate", "J05 C03 J08", [(JB, """        let [a,b,c] = slice.try_into().unwrap();
        let output = [
            a >> 2,
            ((a & 0x03) << 4) | ((b & 0xF0) >> 4),
            ((b & 0x0F) << 2) | ((c & 0xC0) >> 6),
            c & 0x3F
        ].map(|n| ALPHABET[(n & 0x3F) as usize]);
        ser.write(&output)?;
""", """        let packed = slice.iter().fold(0u32, |acc, &b| acc << 8 | u32::from(b));
        let mut output = [0u8; 4];
        for (k, out) in output.iter_mut().enumerate() {
            *out = ALPHABET[(packed >> (18 - 6 * k)) as usize & 0x3F];
        }
        ser.write(&output)?;
""")])

r("base64-table", "J05 J10 J11", [(JB, """    match c {
        b'A'..=b'Z' => Some(c - b'A'),
        b'a'..=b'z' => Some(c - b'a' + 26),
        b'0'..=b'9' => Some(c - b'0' + 52),
        b'/' => Some(63),
        b'+' => Some(62),
        _ => None
    }
}

// static""", """    ALPHABET.iter().position(|&a| a == c).map(|n| n as u8)
}

// static""")])

r("match-float-loop", "J15 J13 J14", [(JD, """        let input = &self.input[self.index..];
        input.iter()
        .position(|&b| !matches!(b, b'0'..=b'9'|b'+'|b'-'|b'.'|b'e'|b'E'))
        .map(|len| &input[..len])
        .unwrap_or(input)
    }
""", """        let mut end = self.index;
        while end < self.input.len()
            && (self.input[end].is_ascii_digit() || b"+-.eE".contains(&self.input[end]))
        {
            end += 1;
        }
        &self.input[self.index..end]
    }
""")])

r("escape-split", "J02 C03 C04", [(JS, """        if escape == UU {
            writer.write(b"\\\\u00")?;
            writer.write(&hex(byte))?;
        }
        else {
            writer.write(&[b'\\\\', escape])?;
        }
""", """        if escape != UU {
            writer.write(&[b'\\\\', escape])?;
        }
        else {
            let [hi, lo] = hex(byte);
            writer.write(&[b'\\\\', b'u', b'0', b'0', hi, lo])?;
        }
""")])

r("escape-position", "J02 C03", [(JS, """    let mut start = 0;

    for (i, &byte) in bytes.iter().enumerate() {
        let escape = match byte {
            0x00..=0x1F => ESCAPE[byte as usize],
            QU|BS => byte,
            _ => continue
        };

        if start < i {
            writer.write_str(&value[start..i])?;
        }
""", """    let mut start = 0;

    while let Some(run) = bytes[start..].iter().position(|&b| matches!(b, 0x00..=0x1F|QU|BS)) {
        let i = start + run;
        let byte = bytes[i];
        let escape = if byte < 0x20 { ESCAPE[usize::from(byte)] } else { byte };

        if run != 0 {
            writer.write_str(&value[start..i])?;
        }
""")])

r("token-starts-with", "J10 J07 J14", [(JD, """        let size = token.len();
        if let Some(slice) = self.input.get(self.index..self.index+size) {
            if slice == token {
                self.eat_some(size);
                Ok(())
            }
            else {
                Err(Error::ExpectedToken)
            }
        }
        else {
            Err(Error::UnexpectedEof)
        }
""", """        if self.remaining_len() < token.len() {
            return Err(Error::UnexpectedEof)
        }
        if !self.input[self.index..].starts_with(token) {
            return Err(Error::ExpectedToken)
        }
        self.eat_some(token.len());
        Ok(())
""")])

r("slice-writer-split", "C01 C03", [(LIB, """        let end = self.len + buf.len();
        match self.buf.get_mut(self.len..end) {
            Some(chunk) => {
                chunk.copy_from_slice(buf);
                self.len = end;
                Ok(())
            }
            None => Err(SerError::BufferFull)
        }
""", """        if buf.len() > self.rem_capacity() {
            return Err(SerError::BufferFull)
        }
        let (_, free) = self.buf.split_at_mut(self.len);
        for (to, from) in free.iter_mut().zip(buf) {
            *to = *from;
        }
        self.len += buf.len();
        Ok(())
""")])

r("msgpack-array", "M06 M01 M03", [(MD, """        let index = self.index;
        let res = self.input.get(index..index+N)
        .ok_or(Error::UnexpectedEof)?
        .try_into().unwrap();
        self.eat_some(N);
        Ok(res)
""", """        let mut res = [0u8; N];
        res.copy_from_slice(self.input_ref()?.get(..N).ok_or(Error::UnexpectedEof)?);
        self.eat_some(N);
        Ok(res)
""")])

r("msgpack-lengths", "M02 M06 M07 M11", [(MD, """        let len: usize = match self.fetch()? {
            BIN_8 => self.fetch_u8()?.into(),
            BIN_16 => self.fetch_u16()?.into(),
            BIN_32 => self.fetch_u32()?.try_into()?,
            _ => return Err(Error::ExpectedBin)
        };
        self.split_input(len)
    }
""", """        let code = self.fetch()?;
        let width = match code {
            BIN_8 => 1,
            BIN_16 => 2,
            BIN_32 => 4,
            _ => return Err(Error::ExpectedBin)
        };
        let len = self.fetch_length(width)?;
        self.split_input(len)
    }

    fn fetch_length(&mut self, width: usize) -> Result<usize> {
        let mut len = 0usize;
        for _ in 0..width {
            len = len << 8 | usize::from(self.fetch()?);
        }
        Ok(len)
    }
""")])

r("msgpack-ranges", "M01 M04", [(MS, "        else if let Ok(v) = i16::try_from(v) {\n            self.output.write_byte(INT_16)?;\n            self.output.write(&v.to_be_bytes())?;\n        }\n        else if let Ok(v) = u16::try_from(v) {\n            self.output.write_byte(UINT_16)?;\n            self.output.write(&v.to_be_bytes())?;\n        }\n        else if let Ok(v) = i32::try_from(v) {",
 "        else if (i16::MIN as i64..=i16::MAX as i64).contains(&v) {\n            let [hi, lo] = (v as i16).to_be_bytes();\n            self.output.write(&[INT_16, hi, lo])?;\n        }\n        else if (0..=0xffff).contains(&v) {\n            self.output.write_byte(UINT_16)?;\n            self.output.write(&(v as u16).to_be_bytes())?;\n        }\n        else if let Ok(v) = i32::try_from(v) {")])

r("msgpack-skip-helper", "M07 M06 M08", [(MD, """            Single(len) => {
                let index = self.index.checked_add(len).ok_or(Error::UnexpectedEof)?;
                if index > self.input.len() {
                    return Err(Error::UnexpectedEof)
                }
                self.index = index;
            }
""", """            Single(len) => {
                if len > self.remaining_len() || self.index > self.input.len() {
                    return Err(Error::UnexpectedEof)
                }
                self.eat_some(len);
            }
""")])

r("json-value-enum", "J13 J10", [(JD, """                    ch if ch == end => {
                        self.eat_some(1);
                        depth -= 1;
                    }
                    b',' => {
                        self.eat_some(1);
                        match (end, self.eat_whitespace()?) {
                            (b']', b']') => return Err(Error::TrailingArrayComma),
                            (b'}', b'}') => return Err(Error::TrailingObjectComma),
                            (b'}', _) => self.eat_key()?,
                            _ => {}
                        }
                        continue 'value
                    }
                    _ => return Err(match end {
                        b']' => Error::ExpectedArrayCommaOrEnd,
                        _ => Error::ExpectedObjectCommaOrEnd
                    })
""", """                    b',' => {
                        self.eat_some(1);
                        let next = self.eat_whitespace()?;
                        if end == b'}' {
                            if next == b'}' {
                                return Err(Error::TrailingObjectComma)
                            }
                            self.eat_key()?;
                        }
                        else if next == b']' {
                            return Err(Error::TrailingArrayComma)
                        }
                        continue 'value
                    }
                    ch if ch != end && end == b']' => return Err(Error::ExpectedArrayCommaOrEnd),
                    ch if ch != end => return Err(Error::ExpectedObjectCommaOrEnd),
                    _ => {
                        self.eat_some(1);
                        depth -= 1;
                    }
""")])
