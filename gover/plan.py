"""Which functions carry each property (the entries), and how to replay it."""
SPLITS = ['shamir.Split', 'shamir.SplitWithRandomizer', 'shamir.SplitWithRandomizerOld', 'shamir.SplitGeneric', 'shamir.SplitP']
CLIENT = [x.replace('.', '.verifRoundTrip_') for x in SPLITS]
CS = ['(*csprng.CSPRNG).Read', '(*csprng.CSPRNG).Perm', '(*csprng.CSPRNG).GetUniqueBytes', 'csprng.NewCSPRNG', 'csprng.NewCSPRNGWithKeyIV']
RA = ['(*randomizer.Randomizer).Read', '(*randomizer.Randomizer).Perm', 'randomizer.NewRandomizer']
SCALAR = ['galois.GalAdd', 'galois.GalSub', 'galois.GalMultiply', 'galois.GalMultiplyLogExp', 'galois.GalDivide', 'galois.GalExp',
          'shamir.add', 'shamir.mult', 'shamir.div']
KR = ['krawczyk.Split', 'krawczyk.SplitWithRandomizer']

PLAN = {
    'C01': dict(entries=SPLITS + ['shamir.Combine'] + CLIENT, client=True, lean=['combine_split', 'hor_zero'], pkgs=['shamir']),
    'C02': dict(entries=SPLITS, pkgs=['shamir']),
    'C03': dict(entries=SPLITS, lean=['secrecy'], pkgs=['shamir']),
    'C04': dict(entries=['shamir.Combine'], pkgs=['shamir']),
    'C05': dict(entries=['shamir.Regenerate'], pkgs=['shamir']),
    'C06': dict(entries=SCALAR, pkgs=['galois', 'shamir']),
    'C07': dict(entries=['galois.AddVector', 'galois.MulConstVector', 'galois.AddVectorGeneric', 'galois.AddVectorBatchGeneric', 'galois.MulConstVectorGeneric'], extra=['vecs'], pkgs=['galois']),
    'C08': dict(entries=KR + ['krawczyk.Combine'], lean=['combine_split', 'hor_zero'], pkgs=['krawczyk']),
    'C09': dict(entries=KR, pkgs=['krawczyk']),
    'C10': dict(entries=['krawczyk.Combine'], pkgs=['krawczyk']),
    'C11': dict(entries=['(*csprng.CSPRNG).Read', 'csprng.NewCSPRNG', 'csprng.NewCSPRNGWithKeyIV', '(*randomizer.Randomizer).Read', 'randomizer.NewRandomizer'],
                pkgs=['csprng', 'randomizer']),
    'C12': dict(entries=['(*csprng.CSPRNG).Perm', '(*csprng.CSPRNG).GetUniqueBytes', '(*randomizer.Randomizer).Perm'], pkgs=['csprng', 'randomizer']),
    'C13': dict(entries=SPLITS + ['shamir.Combine', 'shamir.Regenerate'] + KR + ['krawczyk.Combine', 'utils.NewBytesBufferPool', '(*utils.BytesBufferPool).Get', '(*utils.BytesBufferPool).Put'],
                pkgs=['shamir', 'krawczyk', 'utils']),
    'C14': dict(entries=['shamir.SplitP'], pkgs=['shamir']),
    'C15': dict(entries=['(*worker.Worker).Split', '(*worker.Worker).Combine', 'worker.NewWorker'], pkgs=['worker']),
}
