func utils.NewBytesBufferPool(size) -> (p)
  ensures True

func (*utils.BytesBufferPool).Get(b) -> (bb)
  owned bb

func (*utils.BytesBufferPool).Put(b, bb)
  consumes bb
