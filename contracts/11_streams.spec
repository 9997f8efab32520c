# C11: output streams.  A writer's ghost field $out is everything written to it.
package io
extern Writer.Write :: this, p -> n, err
  modifies this.$out
  opt noalloc
  ensures err == nil ==> this.$out == scat(old(this.$out), bytes_str(data(p), off(p), len(p)))

package github.com/corywalker/expreduce/expreduce/streammanager
logic scat(Str,Str) Str
logic bytes_str((Array Int Int),Int,Int) Str

# the number a stream name stands for when no number is given
define c11_id(name, id) = ite(id == 0 - 1, ite(name == "stdout", 1, ite(name == "stderr", 2, 0 - 1)), id)
define c11_key(name, id) = mk("streamKey", c11_id(name, id), name)

func streamManagerImpl.fillMissingIndex :: sm, key
  props C11
  requires key != nil
  modifies key.id
  opt helper
  ensures [resolved] key.id == c11_id(old(key.name), old(key.id))

func streamManagerImpl.WriteString :: sm, name, id, text -> ok
  props C11
  requires forall k:streamKey :: {sm.openStreams[k]} has(sm.openStreams, k) ==> sm.openStreams[k] != nil
  modifies when(has(sm.openStreams, c11_key(name, id)), sm.openStreams[c11_key(name, id)].$out)
  ensures [unknown-stream-fails] !has(sm.openStreams, c11_key(name, id)) ==> !ok
  ensures [delivered] ok ==> has(sm.openStreams, c11_key(name, id)) && sm.openStreams[c11_key(name, id)].$out == scat(old(sm.openStreams[c11_key(name, id)].$out), text)

# a fresh manager knows standard output and standard error, and nothing else
func NewStreamManager :: -> r
  props C11
  requires os.Stdout != nil && os.Stderr != nil
  ensures is(r, *streamManagerImpl)
  ensures [streams] forall k:streamKey :: {has(r.(*streamManagerImpl).openStreams, k)} has(r.(*streamManagerImpl).openStreams, k) <==> k == mk("streamKey", 1, "stdout") || k == mk("streamKey", 2, "stderr")
  ensures [stdout] ref(r.(*streamManagerImpl).openStreams[mk("streamKey", 1, "stdout")]) == ref(os.Stdout)
  ensures [stderr] ref(r.(*streamManagerImpl).openStreams[mk("streamKey", 2, "stderr")]) == ref(os.Stderr)
