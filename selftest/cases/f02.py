I = "src/odc/codec/Integer.h"
IM = "src/odc/codec/IntegerMissing.h"
RL = "src/odc/codec/Real.h"
ST = "src/odc/codec/String.h"
CASES = [
 ("f02-skip-width", [(I, "void skip() override { this->ds().advance(sizeof(InternalValueType)); }", "void skip() override { this->ds().advance(sizeof(ValueType)); }")], {"F02"}),
 ("f02-real-decode-nomissing", [(RL, "(*out)                            = (s == internalMissing ? this->missingValue_ : s);", "(*out) = s;")], {"F02"}),
 ("f02-real-encode-noswap", [(RL, "        ByteOrder::swap(s);\n        ::memcpy(p, &s, sizeof(s));", "        ::memcpy(p, &s, sizeof(s));")], {"F02"}),
 ("f02-int-offset-sign", [(I, "(*val_out) = s + this->min_;", "(*val_out) = static_cast<std::make_signed_t<InternalValueType>>(s) + this->min_;")], {"F02"}),
 ("f02-int-max", [(I, "(*val_out) = s + this->min_;", "(*val_out) = s + this->max_;")], {"F02"}),
 ("f02-real-collision", [(RL, "ASSERT(s != internalMissing);", ";")], {"F02"}),
 ("f02-real-encode-refactor", [(RL, """        float s;
        if (d == this->missingValue_) {
            s = internalMissing;
        }
        else {
            s = d;
            ASSERT(s != internalMissing);
        }
""", """        float s = internalMissing;
        const bool isMissing = !(d != this->missingValue_);
        if (!isMissing) {
            s = static_cast<float>(d);
            ASSERT(!(s == internalMissing));
        }
""")], set()),
 ("f02-int-refactor", [(I, """        InternalValueType s;
        this->ds().read(s);
        (*val_out) = s + this->min_;""", """        InternalValueType stored = readStored();
        const ValueType offset = this->min_;
        *val_out = offset + stored;"""), (I, """    void skip() override { this->ds().advance(sizeof(InternalValueType)); }
};


//---""", """    void skip() override { const size_t n = sizeof(InternalValueType); this->ds().advance(n); }
    InternalValueType readStored() { InternalValueType s; this->ds().read(s); return s; }
};


//---""")], set()),
]
