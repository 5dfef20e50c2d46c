package mongowire

func readInt32(b) (r)
property C17
requires len(b) >= 4
ensures r == i32(le32(b, 0))

func readInt64(b) (r)
property C17
requires len(b) >= 8
ensures r == i64(le64(b, 0))

func encodeInt32(i) (b)
property C17
ensures len(b) == 4 && le32(b, 0) == u32(i) && fresh(b)

func encodeInt64(i) (b)
property C17
ensures len(b) == 8 && le64(b, 0) == u64(i) && fresh(b)

func readCString(b) (s, err)
property C17
ensures found: err != nil ==> (forall i in 0..len(b) :: b[i] != 0)
ensures val: err == nil ==> len(s) < len(b) && b[len(s)] == 0 && (forall i in 0..len(s) :: b[i] != 0 && s[i] == b[i])
inv forall j in 0..$i :: b[j] != 0

lemma le32Round [C17]: forall v:int :: 0-pow2(31) <= v && v < pow2(31) ==> i32(u32(v)) == v
lemma le64Round [C17]: forall v:int :: 0-pow2(63) <= v && v < pow2(63) ==> i64(u64(v)) == v

def dotAt(ns, n) = n < len(ns) && ns[n] == 46 && (forall i in 0..n :: ns[i] != 46)
def noDot(ns) = forall i in 0..len(ns) :: ns[i] != 46

func NamespaceToDB(ns) (db)
property C20
ensures none: noDot(ns) ==> db == ns
ensures dot: forall n in 0..len(ns) :: dotAt(ns, n) ==> len(db) == n && (forall i in 0..n :: db[i] == ns[i])

func NamespaceToCollection(ns) (c)
property C20
ensures none: noDot(ns) ==> len(c) == 0
ensures dot: forall n in 0..len(ns) :: dotAt(ns, n) ==> len(c) == len(ns)-n-1 && (forall i in 0..len(ns)-n-1 :: c[i] == ns[n+1+i])

func NamespaceIsCommand(ns) (r)
property C20
ensures none: noDot(ns) ==> !r
ensures dot: forall n in 0..len(ns) :: dotAt(ns, n) ==> r == (n+1 < len(ns) && ns[n+1] == 36)
ensures cmd: r ==> (exists n in 0..len(ns) :: dotAt(ns, n))

func (*OpScope).Validate(s) (err)
property C20
requires s != nil
ensures (err == nil) == (
   ((s.Type == 2010 || s.Type == 2013) && len(s.Command) > 0)
|| ((s.Type == 2006 || s.Type == 2001 || s.Type == 2004 || s.Type == 2002 || s.Type == 2005) && len(s.Context) > 0 && len(s.Command) == 0)
|| (s.Type == 2007 && len(s.Context) == 0 && len(s.Command) == 0))

# parsing message bodies (C19): no panic, no read outside the body, every loop ends
func readDocument(buf) (d, n, err)
property C19
requires len(buf) < pow2(31)-32
ensures size: err == nil ==> n == i32at(buf, 0) && n >= 5 && n <= len(buf)
ensures doc: err == nil ==> fresh(d) && fresh(d.elems) && flat(d) && chain(d, buf, n-1)

def body(buf) = len(buf) < pow2(31)-32
# the C string of length n at byte o
def cstr(s, buf, o) = o + len(s) < len(buf) && buf[o+len(s)] == 0 && (forall i in 0..len(s) :: buf[o+i] != 0 && s[i] == buf[o+i])
def answered(m, err) = !isnil(m) || !isnil(err)

def first0(buf, o, z) = buf[z] == 0 && (forall i in o..z :: buf[i] != 0)
def docAt(d, buf, o) = d != nil && flat(d) && o + i32at(buf, o) <= len(buf) && i32at(buf, o) >= 5 && chain(d, buf[o:len(buf)], i32at(buf, o)-1)

def gm(m) = as(m, "*mongowire.getMoreMessage")
func (*MessageHeader).parseGetMoreMessage(h, buf) (m, err)
property C18 C19
requires h != nil && body(buf)
ensures answered(m, err)
ensures type: err == nil ==> is(m, "*mongowire.getMoreMessage") && gm(m).header == *h
ensures fields: err == nil ==> gm(m).Reserved == i32at(buf, 0) && cstr(gm(m).Namespace, buf, 4)
ensures rest: err == nil ==> gm(m).NReturn == i32at(buf, 5+len(gm(m).Namespace)) && gm(m).CursorId == i64(le64(buf, 9+len(gm(m).Namespace)))
ensures accepts: forall z in 4..len(buf) :: first0(buf, 4, z) && z+13 <= len(buf) ==> err == nil

def kc(m) = as(m, "*mongowire.killCursorsMessage")
func (*MessageHeader).parseKillCursorsMessage(h, buf) (m, err)
property C18 C19
requires h != nil && body(buf)
ensures answered(m, err)
ensures accepts: (err == nil) == (len(buf) >= 8 && i32at(buf, 4) >= 0 && len(buf) >= 8 + 8*i32at(buf, 4))
ensures type: err == nil ==> is(m, "*mongowire.killCursorsMessage") && kc(m).header == *h
ensures fields: err == nil ==> kc(m).Reserved == i32at(buf, 0) && kc(m).NumCursors == i32at(buf, 4) && len(kc(m).CursorIds) == i32at(buf, 4)
ensures ids: err == nil ==> (forall i in 0..len(kc(m).CursorIds) :: kc(m).CursorIds[i] == i64(le64(buf, 8+8*i)))
inv forall j in 0..$i :: m.CursorIds[j] == i64(le64(buf, 8+8*j))
inv loc == 8 + 8*$i

def dm(m) = as(m, "*mongowire.deleteMessage")
func (*MessageHeader).parseDeleteMessage(h, buf) (m, err)
property C18 C19
requires h != nil && body(buf)
ensures answered(m, err)
ensures type: err == nil ==> is(m, "*mongowire.deleteMessage") && dm(m).header == *h
ensures fields: err == nil ==> dm(m).Reserved == i32at(buf, 0) && cstr(dm(m).Namespace, buf, 4) && dm(m).Flags == i32at(buf, 5+len(dm(m).Namespace))
ensures doc: err == nil ==> docAt(dm(m).Filter, buf, 9+len(dm(m).Namespace))

def um(m) = as(m, "*mongowire.updateMessage")
func (*MessageHeader).parseUpdateMessage(h, buf) (m, err)
property C18 C19
requires h != nil && body(buf)
ensures answered(m, err)
ensures type: err == nil ==> is(m, "*mongowire.updateMessage") && um(m).header == *h
ensures fields: err == nil ==> um(m).Reserved == i32at(buf, 0) && cstr(um(m).Namespace, buf, 4) && um(m).Flags == i32at(buf, 5+len(um(m).Namespace))
ensures doc: err == nil ==> docAt(um(m).Filter, buf, 9+len(um(m).Namespace))
ensures doc2: err == nil ==> docAt(um(m).Update, buf, 9+len(um(m).Namespace)+i32at(buf, 9+len(um(m).Namespace)))

def im(m) = as(m, "*mongowire.insertMessage")
func (*MessageHeader).parseInsertMessage(h, buf) (m, err)
property C18 C19
requires h != nil && body(buf)
ensures answered(m, err)
ensures type: err == nil ==> is(m, "*mongowire.insertMessage") && im(m).header == *h
ensures fields: err == nil ==> im(m).Flags == i32at(buf, 0) && cstr(im(m).Namespace, buf, 4)

def rm(m) = as(m, "*mongowire.ReplyMessage")
func (*MessageHeader).parseReplyMessage(h, buf) (m, err)
property C18 C19
requires h != nil && body(buf)
ensures answered(m, err)
ensures type: err == nil ==> is(m, "*mongowire.ReplyMessage") && rm(m).header == *h
ensures fields: err == nil ==> rm(m).Flags == i32at(buf, 0) && rm(m).CursorId == i64(le64(buf, 4)) && rm(m).StartingFrom == i32at(buf, 12) && rm(m).NumberReturned == i32at(buf, 16)

def qm(m) = as(m, "*mongowire.queryMessage")
def cm(m) = as(m, "*mongowire.CommandMessage")
def qdoc2(m, buf) = 13+len(qm(m).Namespace) + i32at(buf, 13+len(qm(m).Namespace))
func (*MessageHeader).parseQueryMessage(h, buf) (m, err)
property C18 C19
requires h != nil && body(buf)
ensures answered(m, err)
ensures type: err == nil ==> is(m, "*mongowire.queryMessage") && qm(m).header == *h || is(m, "*mongowire.CommandMessage")
ensures fields: err == nil && is(m, "*mongowire.queryMessage") ==> qm(m).Flags == i32at(buf, 0) && cstr(qm(m).Namespace, buf, 4) && qm(m).Skip == i32at(buf, 5+len(qm(m).Namespace)) && qm(m).NReturn == i32at(buf, 9+len(qm(m).Namespace))
ensures doc: err == nil && is(m, "*mongowire.queryMessage") ==> docAt(qm(m).Query, buf, 13+len(qm(m).Namespace))
ensures proj: err == nil && is(m, "*mongowire.queryMessage") ==> (qdoc2(m, buf) < len(buf) ? docAt(qm(m).Project, buf, qdoc2(m, buf)) : qm(m).Project == nil)
ensures cmd: err == nil && is(m, "*mongowire.CommandMessage") ==> cm(m).upconverted && cm(m).Metadata == nil && len(cm(m).InputDocs) == 0 && cm(m).CommandArgs != nil && len(cm(m).CommandArgs.elems) > 0 && cm(m).CmdName == keyOf(cm(m).CommandArgs.elems[0])

func (*MessageHeader).parseCommandMessage(h, buf) (m, err)
property C18 C19
requires h != nil && body(buf)
ensures answered(m, err)
ensures type: err == nil ==> is(m, "*mongowire.CommandMessage") && cm(m).header == *h
ensures fields: err == nil ==> cstr(cm(m).DB, buf, 0) && cstr(cm(m).CmdName, buf, 1+len(cm(m).DB))
ensures doc: err == nil ==> docAt(cm(m).CommandArgs, old(buf), 2+len(cm(m).DB)+len(cm(m).CmdName))

def cr(m) = as(m, "*mongowire.CommandReplyMessage")
func (*MessageHeader).parseCommandReplyMessage(h, buf) (m, err)
property C18 C19
requires h != nil && body(buf)
ensures answered(m, err)
ensures type: err == nil ==> is(m, "*mongowire.CommandReplyMessage") && cr(m).header == *h
ensures doc: err == nil ==> docAt(cr(m).CommandReply, buf, 0)
ensures doc2: err == nil ==> docAt(cr(m).Metadata, buf, i32at(buf, 0))

def mm(m) = as(m, "*mongowire.OpMessage")
func (*MessageHeader).parseMsgBody(h, buf) (m, err)
property C18 C19
requires h != nil && body(buf)
ensures answered(m, err)
ensures type: err == nil ==> is(m, "*mongowire.OpMessage") && mm(m).header == *h
ensures fields: err == nil ==> mm(m).Flags == le32(buf, 0)

func (*MessageHeader).Parse(h, buf) (m, err)
property C18 C19
requires h != nil && body(buf)
ensures answered(m, err)
ensures kind: err == nil ==> (h.OpCode == 1 ==> is(m, "*mongowire.ReplyMessage")) && (h.OpCode == 2001 ==> is(m, "*mongowire.updateMessage")) && (h.OpCode == 2002 ==> is(m, "*mongowire.insertMessage")) && (h.OpCode == 2004 ==> is(m, "*mongowire.queryMessage") || is(m, "*mongowire.CommandMessage")) && (h.OpCode == 2005 ==> is(m, "*mongowire.getMoreMessage")) && (h.OpCode == 2006 ==> is(m, "*mongowire.deleteMessage")) && (h.OpCode == 2007 ==> is(m, "*mongowire.killCursorsMessage")) && (h.OpCode == 2010 ==> is(m, "*mongowire.CommandMessage")) && (h.OpCode == 2011 ==> is(m, "*mongowire.CommandReplyMessage")) && (h.OpCode == 2013 ==> is(m, "*mongowire.OpMessage"))
ensures known: err == nil ==> h.OpCode == 1 || h.OpCode == 2001 || h.OpCode == 2002 || h.OpCode == 2004 || h.OpCode == 2005 || h.OpCode == 2006 || h.OpCode == 2007 || h.OpCode == 2010 || h.OpCode == 2011 || h.OpCode == 2013
