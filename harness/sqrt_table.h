static const double sqrt_table[] = {
0x0.0p+0,
0x1.0000000000000p+0,
0x1.6a09e667f3bcdp+0,
0x1.bb67ae8584caap+0,
0x1.0000000000000p+1,
0x1.1e3779b97f4a8p+1,
0x1.3988e1409212ep+1,
0x1.52a7fa9d2f8eap+1,
0x1.6a09e667f3bcdp+1,
0x1.8000000000000p+1,
0x1.94c583ada5b53p+1,
0x1.a887293fd6f34p+1,
0x1.bb67ae8584caap+1,
0x1.cd82b446159f3p+1,
0x1.deeea11683f49p+1,
0x1.efbdeb14f4edap+1,
0x1.0000000000000p+2,
0x1.07e0f66afed07p+2,
0x1.0f876ccdf6cd9p+2,
0x1.16f8334644df9p+2,
0x1.1e3779b97f4a8p+2,
0x1.2548eb9151e85p+2,
0x1.2c2fc595456a7p+2,
0x1.32eee75770416p+2,
0x1.3988e1409212ep+2,
0x1.4000000000000p+2,
0x1.465655f122ff6p+2,
0x1.4c8dc2e423980p+2,
0x1.52a7fa9d2f8eap+2,
0x1.58a68a4a8d9f3p+2,
0x1.5e8add236a58fp+2,
0x1.645640568c1c3p+2,
0x1.6a09e667f3bcdp+2,
0x1.6fa6ea162d0f0p+2,
0x1.752e50db3a3a2p+2,
0x1.7aa10d193c22dp+2,
0x1.8000000000000p+2,
0x1.854bfb363dc39p+2,
0x1.8a85c24f70659p+2,
0x1.8fae0c15ad38ap+2,
0x1.94c583ada5b53p+2,
0x1.99ccc999fff00p+2,
0x1.9ec474a261264p+2,
0x1.a3ad12a1da160p+2,
0x1.a887293fd6f34p+2,
0x1.ad5336963eefcp+2,
0x1.b211b1c70d023p+2,
0x1.b6c30b83593e6p+2,
0x1.bb67ae8584caap+2,
0x1.c000000000000p+2,
0x1.c48c6001f0ac0p+2,
0x1.c90d29d2d43cep+2,
0x1.cd82b446159f3p+2,
0x1.d1ed52076fbe9p+2,
0x1.d64d51e0db1c6p+2,
0x1.daa2fefaae1d8p+2,
0x1.deeea11683f49p+2,
0x1.e3307cc56cf5cp+2,
0x1.e768d399dc470p+2,
0x1.eb97e455b9edbp+2,
0x1.efbdeb14f4edap+2,
0x1.f3db2174e7468p+2,
0x1.f7efbeb8d4f12p+2,
0x1.fbfbf7ebc755fp+2,
0x1.0000000000000p+3,
0x1.01fe03f61bad0p+3,
0x1.03f81f636b80cp+3,
0x1.05ee68efad48bp+3,
0x1.07e0f66afed07p+3,
0x1.09cfdcd8ed009p+3,
0x1.0bbb307acafdbp+3,
0x1.0da304d95fb06p+3,
0x1.0f876ccdf6cd9p+3,
0x1.11687a8ae14a3p+3,
0x1.13463fa37014ep+3,
0x1.1520cd1372febp+3,
0x1.16f8334644df9p+3,
0x1.18cc821d6d3e3p+3,
0x1.1a9dc8f6df104p+3,
0x1.1c6c16b2db870p+3,
0x1.1e3779b97f4a8p+3,
0x1.2000000000000p+3,
0x1.21c5b70d9f824p+3,
0x1.2388ac0059c28p+3,
0x1.2548eb9151e85p+3,
0x1.2706821902e9ap+3,
0x1.28c17b9337834p+3,
0x1.2a79e3a2cd2e6p+3,
0x1.2c2fc595456a7p+3,
0x1.2de32c6628741p+3,
0x1.2f9422c23c47ep+3,
0x1.3142b30a929abp+3,
0x1.32eee75770416p+3,
0x1.3498c97b10540p+3,
0x1.3640630445306p+3,
0x1.37e5bd40f95a1p+3,
0x1.3988e1409212ep+3,
0x1.3b29d7d635662p+3,
0x1.3cc8a99af5453p+3,
0x1.3e655eefe1367p+3,
0x1.4000000000000p+3,
0x1.419894c2329f0p+3,
0x1.432f24fb01c7ap+3,
0x1.44c3b83e57153p+3,
0x1.465655f122ff6p+3,
0x1.47e7054af0989p+3,
0x1.4975cd5768088p+3,
0x1.4b02b4f7c0a88p+3,
0x1.4c8dc2e423980p+3,
0x1.4e16fdacff937p+3,
0x1.4f9e6bbc4ecb3p+3,
0x1.51241356cf6e0p+3,
0x1.52a7fa9d2f8eap+3,
0x1.542a278d2d036p+3,
0x1.55aaa002a9d5ap+3,
0x1.572969b8b5cd8p+3,
0x1.58a68a4a8d9f3p+3,
0x1.5a22073490377p+3,
0x1.5b9be5d52a9dap+3,
0x1.5d142b6dbadc5p+3,
0x1.5e8add236a58fp+3,
0x1.6000000000000p+3,
0x1.617398f2aaa48p+3,
0x1.62e5acd0c3ebep+3,
0x1.645640568c1c3p+3,
0x1.65c55827df1d2p+3,
0x1.6732f8d0e2f77p+3,
0x1.689f26c6b01d0p+3,
0x1.6a09e667f3bcdp+3,
0x1.6b733bfd8c648p+3,
0x1.6cdb2bbb212ebp+3,
0x1.6e41b9bfb3b75p+3,
0x1.6fa6ea162d0f0p+3,
0x1.710ac0b5e5e32p+3,
0x1.726d41832a0bep+3,
0x1.73ce704fb7b23p+3,
0x1.752e50db3a3a2p+3,
0x1.768ce6d3c11e0p+3,
0x1.77ea35d632e43p+3,
0x1.7946416ebc56cp+3,
0x1.7aa10d193c22dp+3,
0x1.7bfa9c41ab040p+3,
0x1.7d52f244809e9p+3,
0x1.7eaa126f15284p+3,
0x1.8000000000000p+3,
0x1.8154be2773526p+3,
0x1.82a8500794e6cp+3,
0x1.83fab8b4d4315p+3,
0x1.854bfb363dc39p+3,
0x1.869c1a85cc346p+3,
0x1.87eb1990b697ap+3,
0x1.8938fb37bc9c1p+3,
0x1.8a85c24f70659p+3,
0x1.8bd171a07e38ap+3,
0x1.8d1c0be7f20acp+3,
0x1.8e6593d77b0b8p+3,
0x1.8fae0c15ad38ap+3,
0x1.90f5773e410e4p+3,
0x1.923bd7e25164dp+3,
0x1.93813088978c5p+3,
0x1.94c583ada5b53p+3,
0x1.9608d3c41fb4bp+3,
0x1.974b2334f2346p+3,
0x1.988c745f88592p+3,
0x1.99ccc999fff00p+3,
0x1.9b0c25315c2cep+3,
0x1.9c4a8969b7077p+3,
0x1.9d87f87e71422p+3,
0x1.9ec474a261264p+3,
0x1.a000000000000p+3,
0x1.a13a9cb996651p+3,
0x1.a2744ce9674f5p+3,
0x1.a3ad12a1da160p+3,
0x1.a4e4efeda34dep+3,
0x1.a61be6cfec997p+3,
0x1.a751f9447b724p+3,
0x1.a887293fd6f34p+3,
0x1.a9bb78af6cabcp+3,
0x1.aaeee979b4838p+3,
0x1.ac217d7e53b66p+3,
0x1.ad5336963eefcp+3,
0x1.ae841693db8b4p+3,
0x1.afb41f432002ep+3,
0x1.b0e35269b38f5p+3,
0x1.b211b1c70d023p+3,
0x1.b33f3f1490defp+3,
0x1.b46bfc05aeb89p+3,
0x1.b597ea47fdda3p+3,
0x1.b6c30b83593e6p+3,
0x1.b7ed6159fadc8p+3,
0x1.b916ed68964ecp+3,
0x1.ba3fb14672d7cp+3,
0x1.bb67ae8584caap+3,
0x1.bc8ee6b2865b9p+3,
0x1.bdb55b550fdbcp+3,
0x1.bedb0defaf661p+3,
0x1.c000000000000p+3,
0x1.c12432fec0329p+3,
0x1.c247a85fe81fap+3,
0x1.c36a6192bf168p+3,
0x1.c48c6001f0ac0p+3,
0x1.c5ada513a1593p+3,
0x1.c6ce322982a3fp+3,
0x1.c7ee08a0e6d4cp+3,
0x1.c90d29d2d43cep+3,
0x1.ca2b9714180f7p+3,
0x1.cb4951b558d17p+3,
0x1.cc665b0328622p+3,
0x1.cd82b446159f3p+3,
0x1.ce9e5ec2bda80p+3,
0x1.cfb95bb9dcc0cp+3,
0x1.d0d3ac685eda4p+3,
0x1.d1ed52076fbe9p+3,
0x1.d3064dcc8ae67p+3,
0x1.d41ea0e98af91p+3,
0x1.d5364c8cb8f86p+3,
0x1.d64d51e0db1c6p+3,
0x1.d763b20d435efp+3,
0x1.d8796e35ddbb2p+3,
0x1.d98e877b3e207p+3,
0x1.daa2fefaae1d8p+3,
0x1.dbb6d5ce3a42fp+3,
0x1.dcca0d0cbf408p+3,
0x1.dddca5c9f6be8p+3,
0x1.deeea11683f49p+3,
0x1.e000000000000p+3,
0x1.e110c39105fafp+3,
0x1.e220ecd13ed60p+3,
0x1.e3307cc56cf5cp+3,
0x1.e43f746f7795bp+3,
0x1.e54dd4ce75f1ep+3,
0x1.e65b9edeba38ep+3,
0x1.e768d399dc470p+3,
0x1.e87573f6c42c5p+3,
0x1.e98180e9b47f2p+3,
0x1.ea8cfb64547abp+3,
0x1.eb97e455b9edbp+3,
0x1.eca23caa72f73p+3,
0x1.edac054c8f94cp+3,
0x1.eeb53f23ab028p+3,
0x1.efbdeb14f4edap+3,
0x1.f0c60a033a7b3p+3,
0x1.f1cd9cceef239p+3,
0x1.f2d4a45635640p+3,
0x1.f3db2174e7468p+3,
0x1.f4e115049ec26p+3,
0x1.f5e67fdcbdf44p+3,
0x1.f6eb62d27730dp+3,
0x1.f7efbeb8d4f12p+3,
0x1.f8f39460c19a8p+3,
0x1.f9f6e4990f227p+3,
0x1.faf9b02e7e8f2p+3,
0x1.fbfbf7ebc755fp+3,
0x1.fcfdbc999e97dp+3,
0x1.fdfefefebe3d6p+3,
0x1.feffbfdfebf1fp+3,
0x1.0000000000000p+4,
0x1.007fe00ff6070p+4,
0x1.00ff807f60debp+4,
0x1.017ee1acdc963p+4,
0x1.01fe03f61bad0p+4,
0x1.027ce7b7ea376p+4,
0x1.02fb8d4e30f48p+4,
0x1.0379f513f8570p+4,
0x1.03f81f636b80cp+4,
0x1.04760c95db310p+4,
0x1.04f3bd03c0a64p+4,
0x1.05713104c0736p+4,
0x1.05ee68efad48bp+4,
0x1.066b651a8ab0fp+4,
0x1.06e825da8fc2bp+4,
0x1.0764ab8429c66p+4,
0x1.07e0f66afed07p+4,
0x1.085d06e1f0517p+4,
0x1.08d8dd3b1d9aap+4,
0x1.095479c7e6581p+4,
0x1.09cfdcd8ed009p+4,
0x1.0a4b06be193b9p+4,
0x1.0ac5f7c69a3c8p+4,
0x1.0b40b040e9153p+4,
0x1.0bbb307acafdbp+4,
0x1.0c3578c15393ep+4,
0x1.0caf8960e710dp+4,
0x1.0d2962a53c75ep+4,
0x1.0da304d95fb06p+4,
0x1.0e1c7047b3b51p+4,
0x1.0e95a539f492cp+4,
0x1.0f0ea3f9397cep+4,
0x1.0f876ccdf6cd9p+4,
0x1.1000000000000p+4,
0x1.10785dd689a29p+4,
0x1.10f086982b418p+4,
0x1.11687a8ae14a3p+4,
0x1.11e039f40ee66p+4,
0x1.1257c5187fd09p+4,
0x1.12cf1c3c6a213p+4,
0x1.13463fa37014ep+4,
0x1.13bd2f90a1cb4p+4,
0x1.1433ec467effbp+4,
0x1.14aa7606f8bb0p+4,
0x1.1520cd1372febp+4,
0x1.1596f1acc669bp+4,
0x1.160ce41341d74p+4,
0x1.1682a486abf71p+4,
0x1.16f8334644df9p+4,
0x1.176d9090c79a8p+4,
0x1.17e2bca46bab9p+4,
0x1.1857b7bee690dp+4,
0x1.18cc821d6d3e3p+4,
0x1.19411bfcb592fp+4,
0x1.19b58598f7c9fp+4,
0x1.1a29bf2defe49p+4,
0x1.1a9dc8f6df104p+4,
0x1.1b11a32e8d06cp+4,
0x1.1b854e0f496a0p+4,
0x1.1bf8c9d2ed1a2p+4,
0x1.1c6c16b2db870p+4,
0x1.1cdf34e803fd5p+4,
0x1.1d5224aae2ee1p+4,
0x1.1dc4e63383328p+4,
0x1.1e3779b97f4a8p+4,
0x1.1ea9df740296fp+4,
0x1.1f1c1799ca8ffp+4,
0x1.1f8e226127f61p+4,
0x1.2000000000000p+4,
0x1.2071b0abcd838p+4,
0x1.20e33499a21a9p+4,
0x1.21548bfe27445p+4,
0x1.21c5b70d9f824p+4,
0x1.2236b5fbe7711p+4,
0x1.22a788fc76de5p+4,
0x1.2318304261d9ap+4,
0x1.2388ac0059c28p+4,
0x1.23f8fc68ae52bp+4,
0x1.246921ad4ea49p+4,
0x1.24d91bffca360p+4,
0x1.2548eb9151e85p+4,
0x1.25b89092b8fbfp+4,
0x1.26280b3476096p+4,
0x1.26975ba6a3f6bp+4,
0x1.2706821902e9ap+4,
0x1.27757ebaf9368p+4,
0x1.27e451bb944c3p+4,
0x1.2852fb49899cdp+4,
0x1.28c17b9337834p+4,
0x1.292fd2c6a6262p+4,
0x1.299e011188575p+4,
0x1.2a0c06a13c70bp+4,
0x1.2a79e3a2cd2e6p+4,
0x1.2ae79842f2858p+4,
0x1.2b5524ae1278ep+4,
0x1.2bc2891041ea7p+4,
0x1.2c2fc595456a7p+4,
0x1.2c9cda6892035p+4,
0x1.2d09c7b54e03ep+4,
0x1.2d768da651c63p+4,
0x1.2de32c6628741p+4,
0x1.2e4fa41f10c9bp+4,
0x1.2ebbf4fafdd4bp+4,
0x1.2f281f2397b1dp+4,
0x1.2f9422c23c47ep+4,
0x1.3000000000000p+4,
0x1.306bb705ae7c3p+4,
0x1.30d747fbcb4b5p+4,
0x1.3142b30a929abp+4,
0x1.31adf859f9e5ep+4,
0x1.32191811b0a41p+4,
0x1.3284125920f33p+4,
0x1.32eee75770416p+4,
0x1.335997337ff40p+4,
0x1.33c42213ee0c9p+4,
0x1.342e881f15cc2p+4,
0x1.3498c97b10540p+4,
0x1.3502e64db5456p+4,
0x1.356cdebc9b5e2p+4,
0x1.35d6b2ed19148p+4,
0x1.3640630445306p+4,
0x1.36a9ef26f762fp+4,
0x1.37135779c8dcbp+4,
0x1.377c9c2114e15p+4,
0x1.37e5bd40f95a1p+4,
0x1.384ebafd57667p+4,
0x1.38b79579d3eabp+4,
0x1.39204cd9d81d6p+4,
0x1.3988e1409212ep+4,
0x1.39f152d0f5470p+4,
0x1.3a59a1adbb257p+4,
0x1.3ac1cdf963908p+4,
0x1.3b29d7d635662p+4,
0x1.3b91bf663f03ap+4,
0x1.3bf984cb56c77p+4,
0x1.3c6128271b923p+4,
0x1.3cc8a99af5453p+4,
0x1.3d30094815409p+4,
0x1.3d97474f76df2p+4,
0x1.3dfe63d1dff15p+4,
0x1.3e655eefe1367p+4,
0x1.3ecc38c9d6d4dp+4,
0x1.3f32f17fe8d04p+4,
0x1.3f9989320b7f7p+4};
