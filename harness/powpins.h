{0, "dc0465aa1fad1d5adae5ac1b1e5f1370796cfd10ff19af601d04acb41d022b4678733af2df5faeb70859d1ee3910cb4895b5cc892911ff06b6622edf3cf935fd4b9428ca097c44b3025e965f", "cdc8edea260c8275fc8decd0370b90c729bb50f26c28e0c357c99232ebbbc360"},
{0, "b3ea6dacd42d816e69afe0e6874c9c04e7d2365d2c60c9eaf479f686a0eb9326e46212d50dcbb377156a6a", "0e4257ace7d7d6580ba3ab40606b9df9fed6d357bf8a6c0e0456ec3be9ac646e"},
{0, "", "eb14e8a833fac6fe9a43b57b336789c46ffe93f2868452240720607b14387e11"},
{0, "3a68ba8edb7408469ef3ceb30af8d0dd68bbf85ffa24f2d2fc1887fb5c87bab43832a59b1b3d107cf778d67fe26df81191297e9395cb12c557ce5af1d41618d719bc045b7e9965f1a29471c42aac6aa938c475c7ad3238021f053b2c991afceb15decf68bae07cbcd61e971b9a0b9dbe9763d392fcafdfa28c97234562ebdd076570ff58896acf", "2ef315faa1bf3335187fb9539abb08340babe08ee0e6a81c12af9019a7a0637f"},
{0, "f7caee3f1ce9e40a68e5de938d389c7dbdd75b09d4e7e233443f4a8cc4a190d6b8b8dc615fd18e28be590eaa501b508a6a3629e670df5577badc446d43bba90817d6c0f67b086170d92dc912725b247ec2e2dab1b2049e208074379a6f900cdd2e5e72f50948b658d197e9c38cb16ed3dd124462320c14a7af3ffa0cded613ce1386cb57a047e45b", "8a9eb4e98483cff702b589dcb1bcf56369433d78e8799c76ea62da50d0c17469"},
{0, "bed145b436d588fed20041f287b10f835f7465ba28461652df88a213d9bf42efb711b5de077fc979bae3a8584aa9e82da84d509de6986be2a99acf214c662a8cd5901137986789bbadf3518d13adf51ca10194acb0846cf58af5", "af82d504c3dd0de7ab35276a432d8be247ca27202fd0825e0eabdc6c0ac3b8e2"},
{1, "2a7a91f5f3ab2f8632ba8145203dc36714887a7590c863c707e01ec270039ad18b163f24f6c3de2bef5d5ad1e6761379ca4216b910aa05d98330c70acf85f066cbecefac894cfab71f18bac3", "afd27c251d5b537b3a2fe8ed6f8c36db71afe06f518467916f6b4e56fa0315b1"},
{1, "34dfb6604ab28032cd39a16edf944414e1f3a6ecc1f4394306c09b629de33ad361efc3536bd04f961fee4d", "c37e6a07b287be9422f3d2e65af31989bfb4413d0c196765474339c341db51ca"},
{1, "bdf3052d97fec4d19b4527b4a2c494d8643eb871b9c41f538b08951c9e5f4021ff977a1a4d7f708cab2f7cfa", "c21b7e7495123f1e0484ea0e8a076b1bba87caa9a1772aaf48b80ffe434ad9b7"},
{1, "801b42caf5db8cf92cb8e67e41f6f97f01e4a8366da4eca2edba70ed5457eba0976341894d4d5968e692bc5cab0ef31079069da53df1525d2e093b0dce966d419ef50a2ca46b16569dac1a0402297b66bd1d9783a856a5e5cac3490450c2fa734d2814cc310dbc5d0b5c788f7e1e8a1a85810febe6abdcd0774114e914b589cf5c53d8812e0b43", "841805bb7b6049b6d71dbe13e34540ec2a7e344f81139953ddd27b8d374de5b8"},
{1, "13e6fc4c1557c517c4888a7df32fc8efb7efd911d5504612ec82d0cd62d13da110e8e311adc6f61afb809158b3bb85d731e8e5bae03e4e8e6379f76b89547cd0eec76a3c7000898c5823ed1845c2bb8cd81bbc862114a3f4ccf71e2b0bed9fc8433ce74776405765732bf635bf7c41044240b6eeb10c1f3dbfb69f8503d67d80a7ffb4aad6bd369c", "5b4449179b9b0d0ad7be63216249c6d06fdd9e45079f06e59a770fa04b907458"},
{1, "e34e04293a21ef3a07102b69a85c9960d36cd1f08745f1f0b4c827dca9af002941466f69cde99d23c04174701d3de956a1d20ce4b073d011004f9b55074e8c0525c9906f920b24b9058ce77a29e7e715c1a1a8da9598f3db244c", "dfc71f24efe112727869dce6229959ca5fa3acdb7c2fbd19aec008f9daefb0e0"},
{2, "658e08d1b3272790beb39ec15af46ea9de00e4936b98ca8ffd4950ed3344b777defec3724b88de5351ab0c4219cb924fb07966774ed5555564a9f7a8674753885f1e51672e1fe3caa1d2f2c5", "bdec255e05b0fd5e617403089601d83e8ee047d09a1f647dc099360709cb290c"},
{2, "38360a38b55dc6cc67c4faab3373a20267d98d373e65c9ea33e4cdad069e69848f2e6e1b46251dca8e5e50", "c0480d75b72bde6aa1f61bde08fac8076a1d790d16aa2156290510d96395f292"},
{2, "", "b5544b58167026476347e41fb65e57c97ca593fe0eb10fb92fa73e5baeef798c"},
{2, "49c41f6a320bf4003cd54c443132d036b4d98789b5f7ab56b0b94882a89b9af0e76e2467722c90424e7c4ada7603dab4977005699146a359ae683f0fa06671723d8afab1f9a0a4ec2789d7a3ef7ffbdf0e2591225156110fcfaa81dae9c8da6e026e1a5fff4128967d556cb6d57c2a50d14fa3cc2bfeea12c9d787fbbb97cd7bf074fb8abce615", "4e87235721a1a310fb4e64bdc7ab29b8563b2e0539fc75f609611ce688c8ef08"},
{2, "d70a39802c60d4609f9847b27e581628f85647c88b4dad4332bef3164a67676248848c8c1dc85e94641a6336511076c35a2c53bca2d9e1332a2343e2b73a9d0881a5a607a045f2bf3611fda85d8bf7b2cf0551dc58950c96fcd9bcd7e86b5efe1923df6ace0f68d8af336b7fba016fedf1979ba0c5bb04634097b66ef534843da9b7902cbf5e99d7", "70c10575a599b34d3b868d6adac15593946d7b05f94af399bbcfb64bcde4bd19"},
{2, "643a07347faab86d569b887e0081a3938e148a1ff8cbe6bcc91910c68a6a5cb5f0dc293ec4bea92996c971f12120bf1d7d098f6107695c731001b6ae486b896ae9d22716a3741a1a4ad9ac6e42d132faa62f1dac3b46bf5b1827", "f4f662cb39d2e83a6cfb6b2142cd5acaafe5fb971bdd9982b9f589a4b75e85f5"},
{3, "dc5f1199f8ece8d55b333206e4370a83936f79cad421a13c8c79ac9be56c7643da4ffc2b8135849b1b0d8aabdd786e7f7c6cdf447b8a05e9343f719ea89cc50d06f6235bfd3d56ddc11dc39a", "b8d6890c6245df10380a0d0d74dda69640d14b89f9c97eefeeccee438d15b7bf"},
{3, "dfd60d85c1dc8b77012e6bee6e76a388dfe69b3dbacd9b5f42fbf653a5daf40dc149814dba37969b3c046b", "73f69431c85ca11a36b1322295a7ec79f8086d0bf0bbf4c5dc615f8fd65b9387"},
{3, "", "555e0aee7879316d7deff772973cb9118e3895709db2547ac072d5b9131001d8"},
{3, "0391975991623f918b4c4b7f712a68fcb51dbd363a5bc85f8fbdf618e806059ce0f41aadf109a13eaf16e8e5c78c7bffbb823da05b864b4202249029963728973df276b5e0ac043c60701de69b402c981d2dd34ca618cbc060457ee0dda566f4d2e0238995245f2158b0629a231f745e9375f65054eb3f725f7a3756f429b64a57179a434a48aa", "f08dbe9e9d062e60d9909a71f0cd799929b1818b617a214aa96f58018384488e"},
{3, "854d2f2e1898ff4aebd5b21ec49ed69fefb91a34a3159c103283f052f936f0de02f946f97932baa7d59a3cc4c2bab1e5d0247eecde77d56d4410c2c4c390f4f22e124c3cd5292782b49c6c6060e15406ad5afcd72051acc418b5e567bb922cdfa152996e43b51ed422929869b74b98fc1e11ee6e81ddf90e4529b1b3f772719cf56f8508dc0e7894", "4451d6426e3ab8cc0d0f972818053e144e34a528d4e1cfded137183a235c376b"},
{3, "b5331a57de3053beba02ab291851954264267f21906a9a22c0226981b86c0bba063949a2eec85f451ae68b7ffee756590d62a5299db07f689a239c51ee07b13fac5a7dc4ff4a9388d573e6e84bd5164ad7977d42377df8661d2a", "18cf65497b311d9be5ae6ac493c10d0b4aaa87bf2c573f7e5d2def940ba37104"},
{0, "6465206f6d6e69627573206475626974616e64756d", "2f8e3df40bd11f9ac90c743ca8e32bb391da4fb98612aa3b6cdc639ee00b31f5"},
{0, "6162756e64616e732063617574656c61206e6f6e206e6f636574", "722fa8ccd594d40e4a41f3822734304c8d5eff7e1b528408e2229da38ba553c4"},
