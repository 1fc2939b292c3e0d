func (*worker.Worker).Split(w, algorithm, input, n, k) -> (out, err)
  opaque shamir.SplitWithRandomizer, krawczyk.SplitWithRandomizer, shamir.Split, shamir.SplitP, shamir.SplitGeneric, shamir.SplitWithRandomizerOld, krawczyk.Split
  ensures implies(algorithm == "shamir", forwards("shamir.SplitWithRandomizer", input, n, k, w.r))
  ensures implies(algorithm == "krawczyk", forwards("krawczyk.SplitWithRandomizer", input, n, k, w.r))
  ensures implies(algorithm != "shamir" and algorithm != "krawczyk", not ok(err) and isnil(out) and nocalls())

func (*worker.Worker).Combine(w, algorithm, shares, n, k) -> (out, err)
  opaque shamir.Combine, krawczyk.Combine
  ensures implies(algorithm == "shamir", forwards("shamir.Combine", shares))
  ensures implies(algorithm == "krawczyk", forwards("krawczyk.Combine", shares, n, k))
  ensures implies(algorithm != "shamir" and algorithm != "krawczyk", not ok(err) and isnil(out) and nocalls())

func worker.NewWorker() -> (w)
  modifies T
  ensures w.r.off == 0 and len(w.r.iv) == 16
