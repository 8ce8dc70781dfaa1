// Frozen normative data (LC3 / LC3plus codec tables) at the pinned commit; generated once.
#include <stdint.h>
static const float win_0_0[40]={
0x1.b99372p-8,0x1.bfa888p-6,0x1.f8eb3ep-5,0x1.ca64c4p-4,0x1.6dfd12p-3,0x1.0b02b4p-2,0x1.6b7f42p-2,0x1.d3bb6ep-2,
0x1.1efcfep-1,0x1.521b9p-1,0x1.807ba8p-1,0x1.a801bcp-1,0x1.c777bp-1,0x1.dea7e8p-1,0x1.ee49a8p-1,0x1.f7c216p-1,
0x1.fcc89ep-1,0x1.ff06ccp-1,0x1.ffcf1p-1,0x1.fffd06p-1,0x1.fffd06p-1,0x1.ffcf1p-1,0x1.ff06ccp-1,0x1.fcc89ep-1,
0x1.f7c216p-1,0x1.ee49a8p-1,0x1.dea7e8p-1,0x1.c777bp-1,0x1.a801bcp-1,0x1.807ba8p-1,0x1.521b9p-1,0x1.1efcfep-1,
0x1.d3bb6ep-2,0x1.6b7f42p-2,0x1.0b02b4p-2,0x1.6dfd12p-3,0x1.ca64c4p-4,0x1.f8eb3ep-5,0x1.bfa888p-6,0x1.b99372p-8};
static const int lim_0_0[21]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,};
static const float win_0_1[80]={
0x1.383da4p-8,0x1.8abc38p-7,0x1.6cc5d6p-6,0x1.254ab8p-5,0x1.b2193cp-5,0x1.2f73f2p-4,0x1.968b36p-4,0x1.074c1ap-3,
0x1.4bb688p-3,0x1.98318ap-3,0x1.ec2d0ap-3,0x1.236f2ep-2,0x1.53a27p-2,0x1.861866p-2,0x1.ba262ap-2,0x1.ef131ap-2,
0x1.120f7ap-1,0x1.2c441ap-1,0x1.45c95ep-1,0x1.5e4714p-1,0x1.756df2p-1,0x1.8afa34p-1,0x1.9eb5bcp-1,0x1.b079acp-1,
0x1.c02f36p-1,0x1.cdcfccp-1,0x1.d96478p-1,0x1.e30488p-1,0x1.ead38cp-1,0x1.f0fec2p-1,0x1.f5ba26p-1,0x1.f93d4cp-1,
0x1.fbc046p-1,0x1.fd78cap-1,0x1.fe97cep-1,0x1.ff47d8p-1,0x1.ffabf8p-1,0x1.ffdf82p-1,0x1.fff67ep-1,0x1.fffe84p-1,
0x1.fffe84p-1,0x1.fff67ep-1,0x1.ffdf82p-1,0x1.ffabf8p-1,0x1.ff47d8p-1,0x1.fe97cep-1,0x1.fd78cap-1,0x1.fbc046p-1,
0x1.f93d4cp-1,0x1.f5ba26p-1,0x1.f0fec2p-1,0x1.ead38cp-1,0x1.e30488p-1,0x1.d96478p-1,0x1.cdcfccp-1,0x1.c02f36p-1,
0x1.b079acp-1,0x1.9eb5bcp-1,0x1.8afa34p-1,0x1.756df2p-1,0x1.5e4714p-1,0x1.45c95ep-1,0x1.2c441ap-1,0x1.120f7ap-1,
0x1.ef131ap-2,0x1.ba262ap-2,0x1.861866p-2,0x1.53a27p-2,0x1.236f2ep-2,0x1.ec2d0ap-3,0x1.98318ap-3,0x1.4bb688p-3,
0x1.074c1ap-3,0x1.968b36p-4,0x1.2f73f2p-4,0x1.b2193cp-5,0x1.254ab8p-5,0x1.6cc5d6p-6,0x1.8abc38p-7,0x1.383da4p-8};
static const int lim_0_1[36]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,32,34,36,38,40,};
static const float win_0_2[120]={
0x1.fde33ep-9,0x1.0cc85ap-7,0x1.c0ffbp-7,0x1.505bbep-6,0x1.d7e8dcp-6,0x1.3c707ap-5,0x1.9a624ap-5,0x1.0335p-4,
0x1.4081d4p-4,0x1.8541dp-4,0x1.d189bep-4,0x1.12abep-3,0x1.40493ap-3,0x1.71843ap-3,0x1.a6381ep-3,0x1.de344cp-3,
0x1.0c9e54p-2,0x1.2b851ep-2,0x1.4ba602p-2,0x1.6cd3f4p-2,0x1.8eddfep-2,0x1.b18fep-2,0x1.d4b2ep-2,0x1.f80e7ep-2,
0x1.0db4bp-1,0x1.1f4512p-1,0x1.309c2p-1,0x1.419e6ap-1,0x1.5231ccp-1,0x1.623dcap-1,0x1.71abecp-1,0x1.80681ap-1,
0x1.8e60dep-1,0x1.9b87a6p-1,0x1.a7d0eap-1,0x1.b3344cp-1,0x1.bdacaap-1,0x1.c73814p-1,0x1.cfd7b8p-1,0x1.d78fbep-1,
0x1.de6718p-1,0x1.e4672ep-1,0x1.e99ba2p-1,0x1.ee11e2p-1,0x1.f1d8cep-1,0x1.f5004ep-1,0x1.f798ep-1,0x1.f9b338p-1,
0x1.fb5fd6p-1,0x1.fcaeaap-1,0x1.fdaec8p-1,0x1.fe6e1ep-1,0x1.fef948p-1,0x1.ff5b6ep-1,0x1.ff9e2ep-1,0x1.ffc99ep-1,
0x1.ffe46p-1,0x1.fff3b2p-1,0x1.fffb98p-1,0x1.ffff02p-1,0x1.ffff02p-1,0x1.fffb98p-1,0x1.fff3b2p-1,0x1.ffe46p-1,
0x1.ffc99ep-1,0x1.ff9e2ep-1,0x1.ff5b6ep-1,0x1.fef948p-1,0x1.fe6e1ep-1,0x1.fdaec8p-1,0x1.fcaeaap-1,0x1.fb5fd6p-1,
0x1.f9b338p-1,0x1.f798ep-1,0x1.f5004ep-1,0x1.f1d8cep-1,0x1.ee11e2p-1,0x1.e99ba2p-1,0x1.e4672ep-1,0x1.de6718p-1,
0x1.d78fbep-1,0x1.cfd7b8p-1,0x1.c73814p-1,0x1.bdacaap-1,0x1.b3344cp-1,0x1.a7d0eap-1,0x1.9b87a6p-1,0x1.8e60dep-1,
0x1.80681ap-1,0x1.71abecp-1,0x1.623dcap-1,0x1.5231ccp-1,0x1.419e6ap-1,0x1.309c2p-1,0x1.1f4512p-1,0x1.0db4bp-1,
0x1.f80e7ep-2,0x1.d4b2ep-2,0x1.b18fep-2,0x1.8eddfep-2,0x1.6cd3f4p-2,0x1.4ba602p-2,0x1.2b851ep-2,0x1.0c9e54p-2,
0x1.de344cp-3,0x1.a6381ep-3,0x1.71843ap-3,0x1.40493ap-3,0x1.12abep-3,0x1.d189bep-4,0x1.8541dp-4,0x1.4081d4p-4,
0x1.0335p-4,0x1.9a624ap-5,0x1.3c707ap-5,0x1.d7e8dcp-6,0x1.505bbep-6,0x1.c0ffbp-7,0x1.0cc85ap-7,0x1.fde33ep-9};
static const int lim_0_2[41]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,28,30,32,34,36,38,40,42,44,47,50,53,56,60,};
static const float win_0_3[160]={
0x1.b9937cp-9,0x1.a71248p-8,0x1.4c5e54p-7,0x1.dbd53ap-7,0x1.41f54ap-6,0x1.a32918p-6,0x1.092506p-5,0x1.48047p-5,
0x1.8e814ep-5,0x1.dcdf9p-5,0x1.19abep-4,0x1.490b1ap-4,0x1.7c9d1cp-4,0x1.b46ab6p-4,0x1.f07598p-4,0x1.185c06p-3,
0x1.3a927p-3,0x1.5ed39ep-3,0x1.851154p-3,0x1.ad398cp-3,0x1.d73686p-3,0x1.017776p-2,0x1.1822fp-2,0x1.2f8da8p-2,
0x1.47a602p-2,0x1.6058fep-2,0x1.799254p-2,0x1.933cap-2,0x1.ad418cp-2,0x1.c789fcp-2,0x1.e1fe42p-2,0x1.fc864cp-2,
0x1.0b84eep-1,0x1.18b85cp-1,0x1.25d174p-1,0x1.32c46ep-1,0x1.3f85d6p-1,0x1.4c0aa2p-1,0x1.58484cp-1,0x1.6434e8p-1,
0x1.6fc738p-1,0x1.7af6cp-1,0x1.85bbd8p-1,0x1.900fbcp-1,0x1.99ec96p-1,0x1.a34d88p-1,0x1.ac2eb4p-1,0x1.b48d4p-1,
0x1.bc675cp-1,0x1.c3bc32p-1,0x1.ca8bf2p-1,0x1.d0d7cp-1,0x1.d6a1aap-1,0x1.dbec9ep-1,0x1.e0bc56p-1,0x1.e51546p-1,
0x1.e8fc8ep-1,0x1.ec77dap-1,0x1.ef8d4cp-1,0x1.f2436cp-1,0x1.f4a106p-1,0x1.f6ad0ep-1,0x1.f86e92p-1,0x1.f9ec98p-1,
0x1.fb2e0cp-1,0x1.fc39a8p-1,0x1.fd15e4p-1,0x1.fdc8e4p-1,0x1.fe5864p-1,0x1.fec9b8p-1,0x1.ff21bcp-1,0x1.ff64d2p-1,
0x1.ff96e2p-1,0x1.ffbb54p-1,0x1.ffd51ap-1,0x1.ffe6bp-1,0x1.fff22ep-1,0x1.fff942p-1,0x1.fffd44p-1,0x1.ffff42p-1,
0x1.ffff42p-1,0x1.fffd44p-1,0x1.fff942p-1,0x1.fff22ep-1,0x1.ffe6bp-1,0x1.ffd51ap-1,0x1.ffbb54p-1,0x1.ff96e2p-1,
0x1.ff64d2p-1,0x1.ff21bcp-1,0x1.fec9b8p-1,0x1.fe5864p-1,0x1.fdc8e4p-1,0x1.fd15e4p-1,0x1.fc39a8p-1,0x1.fb2e0cp-1,
0x1.f9ec98p-1,0x1.f86e92p-1,0x1.f6ad0ep-1,0x1.f4a106p-1,0x1.f2436cp-1,0x1.ef8d4cp-1,0x1.ec77dap-1,0x1.e8fc8ep-1,
0x1.e51546p-1,0x1.e0bc56p-1,0x1.dbec9ep-1,0x1.d6a1aap-1,0x1.d0d7cp-1,0x1.ca8bf2p-1,0x1.c3bc32p-1,0x1.bc675cp-1,
0x1.b48d4p-1,0x1.ac2eb4p-1,0x1.a34d88p-1,0x1.99ec96p-1,0x1.900fbcp-1,0x1.85bbd8p-1,0x1.7af6cp-1,0x1.6fc738p-1,
0x1.6434e8p-1,0x1.58484cp-1,0x1.4c0aa2p-1,0x1.3f85d6p-1,0x1.32c46ep-1,0x1.25d174p-1,0x1.18b85cp-1,0x1.0b84eep-1,
0x1.fc864cp-2,0x1.e1fe42p-2,0x1.c789fcp-2,0x1.ad418cp-2,0x1.933cap-2,0x1.799254p-2,0x1.6058fep-2,0x1.47a602p-2,
0x1.2f8da8p-2,0x1.1822fp-2,0x1.017776p-2,0x1.d73686p-3,0x1.ad398cp-3,0x1.851154p-3,0x1.5ed39ep-3,0x1.3a927p-3,
0x1.185c06p-3,0x1.f07598p-4,0x1.b46ab6p-4,0x1.7c9d1cp-4,0x1.490b1ap-4,0x1.19abep-4,0x1.dcdf9p-5,0x1.8e814ep-5,
0x1.48047p-5,0x1.092506p-5,0x1.a32918p-6,0x1.41f54ap-6,0x1.dbd53ap-7,0x1.4c5e54p-7,0x1.a71248p-8,0x1.b9937cp-9};
static const int lim_0_3[44]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,26,28,30,32,34,36,38,40,43,46,49,52,55,59,63,67,71,75,80,};
static const float win_0_4[240]={
0x1.688bbcp-9,0x1.38f352p-8,0x1.ca2df8p-8,0x1.36511cp-7,0x1.91377p-7,0x1.f6844ap-7,0x1.336856p-6,0x1.715216p-6,
0x1.b53d74p-6,0x1.ff63dap-6,0x1.27fd4p-5,0x1.53994p-5,0x1.829c6p-5,0x1.b51aeap-5,0x1.eb26e2p-5,0x1.1267fap-4,
0x1.3111aap-4,0x1.5195dp-4,0x1.73f87p-4,0x1.983c24p-4,0x1.be622cp-4,0x1.e66a4cp-4,0x1.08296ep-3,0x1.1e0c56p-3,
0x1.34db8cp-3,0x1.4c93f8p-3,0x1.6531c6p-3,0x1.7eb05cp-3,0x1.990a64p-3,0x1.b439c8p-3,0x1.d037bep-3,0x1.ecfcc2p-3,
0x1.05404ep-2,0x1.145d36p-2,0x1.23d05ap-2,0x1.3394a6p-2,0x1.43a4cp-2,0x1.53fb04p-2,0x1.64919p-2,0x1.756246p-2,
0x1.8666cap-2,0x1.97989ap-2,0x1.a8f0fcp-2,0x1.ba691cp-2,0x1.cbf9fep-2,0x1.dd9c96p-2,0x1.ef49bep-2,0x1.007d26p-1,
0x1.095388p-1,0x1.12246cp-1,0x1.1aec44p-1,0x1.23a784p-1,0x1.2c52aep-1,0x1.34ea56p-1,0x1.3d6b22p-1,0x1.45d1c8p-1,
0x1.4e1b2p-1,0x1.564418p-1,0x1.5e49bep-1,0x1.662946p-1,0x1.6de002p-1,0x1.756b72p-1,0x1.7cc93ap-1,0x1.83f72ap-1,
0x1.8af342p-1,0x1.91bbaep-1,0x1.984ecep-1,0x1.9eab2ep-1,0x1.a4cf92p-1,0x1.aabaecp-1,0x1.b06c64p-1,0x1.b5e358p-1,
0x1.bb1f56p-1,0x1.c0201ep-1,0x1.c4e5a8p-1,0x1.c97018p-1,0x1.cdbfc4p-1,0x1.d1d534p-1,0x1.d5b118p-1,0x1.d9545p-1,
0x1.dcbfe2p-1,0x1.dff4fcp-1,0x1.e2f4f4p-1,0x1.e5c13ap-1,0x1.e85b62p-1,0x1.eac51cp-1,0x1.ed003p-1,0x1.ef0e78p-1,
0x1.f0f1e4p-1,0x1.f2ac72p-1,0x1.f4402ap-1,0x1.f5af1cp-1,0x1.f6fb6p-1,0x1.f8270cp-1,0x1.f93434p-1,0x1.fa24eap-1,
0x1.fafb36p-1,0x1.fbb918p-1,0x1.fc608p-1,0x1.fcf352p-1,0x1.fd736p-1,0x1.fde268p-1,0x1.fe4212p-1,0x1.fe93f4p-1,
0x1.fed988p-1,0x1.ff1436p-1,0x1.ff4548p-1,0x1.ff6df4p-1,0x1.ff8f54p-1,0x1.ffaa6ap-1,0x1.ffc024p-1,0x1.ffd152p-1,
0x1.ffdeb2p-1,0x1.ffe8eep-1,0x1.fff096p-1,0x1.fff62cp-1,0x1.fffa2p-1,0x1.fffcccp-1,0x1.fffe82p-1,0x1.ffff82p-1,
0x1.ffff82p-1,0x1.fffe82p-1,0x1.fffcccp-1,0x1.fffa2p-1,0x1.fff62cp-1,0x1.fff096p-1,0x1.ffe8eep-1,0x1.ffdeb2p-1,
0x1.ffd152p-1,0x1.ffc024p-1,0x1.ffaa6ap-1,0x1.ff8f54p-1,0x1.ff6df4p-1,0x1.ff4548p-1,0x1.ff1436p-1,0x1.fed988p-1,
0x1.fe93f4p-1,0x1.fe4212p-1,0x1.fde268p-1,0x1.fd736p-1,0x1.fcf352p-1,0x1.fc608p-1,0x1.fbb918p-1,0x1.fafb36p-1,
0x1.fa24eap-1,0x1.f93434p-1,0x1.f8270cp-1,0x1.f6fb6p-1,0x1.f5af1cp-1,0x1.f4402ap-1,0x1.f2ac72p-1,0x1.f0f1e4p-1,
0x1.ef0e78p-1,0x1.ed003p-1,0x1.eac51cp-1,0x1.e85b62p-1,0x1.e5c13ap-1,0x1.e2f4f4p-1,0x1.dff4fcp-1,0x1.dcbfe2p-1,
0x1.d9545p-1,0x1.d5b118p-1,0x1.d1d534p-1,0x1.cdbfc4p-1,0x1.c97018p-1,0x1.c4e5a8p-1,0x1.c0201ep-1,0x1.bb1f56p-1,
0x1.b5e358p-1,0x1.b06c64p-1,0x1.aabaecp-1,0x1.a4cf92p-1,0x1.9eab2ep-1,0x1.984ecep-1,0x1.91bbaep-1,0x1.8af342p-1,
0x1.83f72ap-1,0x1.7cc93ap-1,0x1.756b72p-1,0x1.6de002p-1,0x1.662946p-1,0x1.5e49bep-1,0x1.564418p-1,0x1.4e1b2p-1,
0x1.45d1c8p-1,0x1.3d6b22p-1,0x1.34ea56p-1,0x1.2c52aep-1,0x1.23a784p-1,0x1.1aec44p-1,0x1.12246cp-1,0x1.095388p-1,
0x1.007d26p-1,0x1.ef49bep-2,0x1.dd9c96p-2,0x1.cbf9fep-2,0x1.ba691cp-2,0x1.a8f0fcp-2,0x1.97989ap-2,0x1.8666cap-2,
0x1.756246p-2,0x1.64919p-2,0x1.53fb04p-2,0x1.43a4cp-2,0x1.3394a6p-2,0x1.23d05ap-2,0x1.145d36p-2,0x1.05404ep-2,
0x1.ecfcc2p-3,0x1.d037bep-3,0x1.b439c8p-3,0x1.990a64p-3,0x1.7eb05cp-3,0x1.6531c6p-3,0x1.4c93f8p-3,0x1.34db8cp-3,
0x1.1e0c56p-3,0x1.08296ep-3,0x1.e66a4cp-4,0x1.be622cp-4,0x1.983c24p-4,0x1.73f87p-4,0x1.5195dp-4,0x1.3111aap-4,
0x1.1267fap-4,0x1.eb26e2p-5,0x1.b51aeap-5,0x1.829c6p-5,0x1.53994p-5,0x1.27fd4p-5,0x1.ff63dap-6,0x1.b53d74p-6,
0x1.715216p-6,0x1.336856p-6,0x1.f6844ap-7,0x1.91377p-7,0x1.36511cp-7,0x1.ca2df8p-8,0x1.38f352p-8,0x1.688bbcp-9};
static const int lim_0_4[45]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,23,25,27,29,31,33,35,37,40,43,46,49,52,56,60,64,68,72,77,82,87,93,100,};
static const float win_0_5[240]={
0x1.9e390ap-23,0x1.548b1ep-20,0x1.f59062p-19,0x1.2239aap-17,0x1.26054cp-16,0x1.10b6c8p-15,0x1.da6018p-15,0x1.8887c6p-14,
0x1.38042ep-13,0x1.dfbf9cp-13,0x1.66811cp-12,0x1.056668p-11,0x1.750e64p-11,0x1.0524acp-10,0x1.675b58p-10,0x1.e6d702p-10,
0x1.451998p-9,0x1.ac8654p-9,0x1.170404p-8,0x1.674126p-8,0x1.c9b474p-8,0x1.20aff4p-7,0x1.68c5eep-7,0x1.bee1ccp-7,
0x1.1273ecp-6,0x1.4e6baap-6,0x1.9462c6p-6,0x1.e56c1cp-6,0x1.214facp-5,0x1.568aa4p-5,0x1.92f1ep-5,0x1.d70caap-5,
0x1.11ae3ap-4,0x1.3c2d46p-4,0x1.6b3aeap-4,0x1.9f0842p-4,0x1.d7bf04p-4,0x1.0ac032p-3,0x1.2c3212p-3,0x1.503bccp-3,
0x1.76de64p-3,0x1.a014d4p-3,0x1.cbd3bp-3,0x1.fa08dap-3,0x1.154da4p-2,0x1.2eb56ap-2,0x1.492818p-2,0x1.648e76p-2,
0x1.80cdcap-2,0x1.9dc80cp-2,0x1.bb5c1p-2,0x1.d965dcp-2,0x1.f7bf1p-2,0x1.0b1facp-1,0x1.1a5e84p-1,0x1.2986d4p-1,
0x1.38835cp-1,0x1.473f34p-1,0x1.55a62p-1,0x1.63a4f8p-1,0x1.7129fcp-1,0x1.7e2524p-1,0x1.8a8862p-1,0x1.9647ep-1,
0x1.a15a22p-1,0x1.abb81cp-1,0x1.b55d3ep-1,0x1.be476ap-1,0x1.c676cep-1,0x1.cdeddp-1,0x1.d4b0cep-1,0x1.dac5e8p-1,
0x1.e034c4p-1,0x1.e50644p-1,0x1.e94444p-1,0x1.ecf954p-1,0x1.f0307ap-1,0x1.f2f4fp-1,0x1.f551fp-1,0x1.f7527cp-1,
0x1.f9013cp-1,0x1.fa684cp-1,0x1.fb912ep-1,0x1.fc84a8p-1,0x1.fd4abap-1,0x1.fdea98p-1,0x1.fe6aap-1,0x1.fed064p-1,
0x1.ff20bp-1,0x1.ff5f96p-1,0x1.ff907cp-1,0x1.ffb62ep-1,0x1.ffd2fp-1,0x1.ffe896p-1,0x1.fff88cp-1,0x1.0001fap+0,
0x1.0005d8p+0,0x1.000836p+0,0x1.00095cp+0,0x1.000982p+0,0x1.0008d8p+0,0x1.000788p+0,0x1.0005b8p+0,0x1.00038cp+0,
0x1.000128p+0,0x1.fffd58p-1,0x1.fff872p-1,0x1.fff3d6p-1,0x1.ffefcp-1,0x1.ffec5ap-1,0x1.ffe9cep-1,0x1.ffe838p-1,
0x1.ffe7acp-1,0x1.ffe83p-1,0x1.ffe9bep-1,0x1.ffec46p-1,0x1.ffefaep-1,0x1.fff3ccp-1,0x1.fff874p-1,0x1.fffd72p-1,
0x1.000146p+0,0x1.0003c6p+0,0x1.00061ap+0,0x1.00082ap+0,0x1.0009dcp+0,0x1.000b22p+0,0x1.000be8p+0,0x1.000c2ap+0,
0x1.000be4p+0,0x1.000b18p+0,0x1.0009d2p+0,0x1.00081cp+0,0x1.00060cp+0,0x1.0003b6p+0,0x1.000134p+0,0x1.fffd3ep-1,
0x1.fff81ap-1,0x1.fff32cp-1,0x1.ffee94p-1,0x1.ffea64p-1,0x1.ffe69cp-1,0x1.ffe322p-1,0x1.ffdfbap-1,0x1.ffdbfep-1,
0x1.ffd75ap-1,0x1.ffd0f8p-1,0x1.ffc7bep-1,0x1.ffba4p-1,0x1.ffa6bp-1,0x1.ff8adp-1,0x1.ff63e6p-1,0x1.ff2ebp-1,
0x1.fee752p-1,0x1.fe894ap-1,0x1.fe0f6ap-1,0x1.fd73c8p-1,0x1.fcafc4p-1,0x1.fbbbfap-1,0x1.fa9052p-1,0x1.f923fcp-1,
0x1.f76d8ep-1,0x1.f56308p-1,0x1.f2f9fap-1,0x1.f027a2p-1,0x1.ece116p-1,0x1.e91b7p-1,0x1.e4cc0ap-1,0x1.dfe8aep-1,
0x1.da67dcp-1,0x1.d4411p-1,0x1.cd6cf6p-1,0x1.c5e5bep-1,0x1.bda74cp-1,0x1.b4af78p-1,0x1.aafe42p-1,0x1.a095eep-1,
0x1.957b28p-1,0x1.89b50cp-1,0x1.7d4d18p-1,0x1.704f2p-1,0x1.62c922p-1,0x1.54cb12p-1,0x1.466694p-1,0x1.37aebp-1,
0x1.28b776p-1,0x1.1995acp-1,0x1.0a5e66p-1,0x1.f64d5cp-2,0x1.d8066ap-2,0x1.ba0feep-2,0x1.9c8ffcp-2,0x1.7faa3ep-2,
0x1.637f98p-2,0x1.482dd6p-2,0x1.2dcf78p-2,0x1.147b84p-2,0x1.f88aecp-3,0x1.ca7a7cp-3,0x1.9ede8ap-3,0x1.75c90cp-3,
0x1.4f454ap-3,0x1.2b583ap-3,0x1.0a00cep-3,0x1.d670bp-4,0x1.9de606p-4,0x1.6a4082p-4,0x1.3b569cp-4,0x1.10f768p-4,
0x1.d5d754p-5,0x1.91edfcp-5,0x1.55b1dap-5,0x1.209c2ap-5,0x1.e4451ap-6,0x1.93724ap-6,0x1.4da93cp-6,0x1.11d816p-6,
0x1.bdea3ap-7,0x1.680326p-7,0x1.201838p-7,0x1.c8ca8cp-8,0x1.668edep-8,0x1.167dbep-8,0x1.abbea8p-9,0x1.44872ap-9,
0x1.e6037p-10,0x1.66c4f6p-10,0x1.04bbbp-10,0x1.747eacp-11,0x1.050632p-11,0x1.66037ap-12,0x1.df202ep-13,0x1.37a256p-13,
0x1.88144ap-14,0x1.d9de1cp-15,0x1.1071d6p-15,0x1.25c18cp-16,0x1.21fdb6p-17,0x1.f535a6p-19,0x1.5456c4p-20,0x1.9dfc1cp-23};
static const int lim_0_5[46]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,21,23,25,27,29,31,33,35,37,40,43,46,49,53,57,61,65,69,74,79,85,91,97,104,112,120,};
static const float win_0_6[480]={
0x1.24c726p-23,0x1.eb8634p-22,0x1.0bc852p-20,0x1.ee212ep-20,0x1.9f08d8p-19,0x1.478dfap-18,0x1.ee2d6ep-18,0x1.680a1p-17,
0x1.fe3546p-17,0x1.61494cp-16,0x1.dfd816p-16,0x1.407858p-15,0x1.a5dceep-15,0x1.121ce2p-14,0x1.602536p-14,0x1.bfbae8p-14,
0x1.19f7bap-13,0x1.601d86p-13,0x1.b442dep-13,0x1.0c4c36p-12,0x1.47c82ep-12,0x1.8df1b6p-12,0x1.e04b04p-12,0x1.203f64p-11,
0x1.58316ap-11,0x1.98fd6p-11,0x1.e3bd4ep-11,0x1.1cd266p-10,0x1.4e0126p-10,0x1.862032p-10,0x1.c5f386p-10,0x1.07273p-9,
0x1.3009e6p-9,0x1.5e1b9ap-9,0x1.91de62p-9,0x1.cbdcecp-9,0x1.065556p-8,0x1.2a71fap-8,0x1.52971p-8,0x1.7f1bcp-8,
0x1.b05bc2p-8,0x1.e6b744p-8,0x1.114974p-7,0x1.322bd4p-7,0x1.563962p-7,0x1.7daaccp-7,0x1.a8bab4p-7,0x1.d7a59ep-7,
0x1.0554e6p-6,0x1.21038cp-6,0x1.3eff7p-6,0x1.5f69e4p-6,0x1.8264c4p-6,0x1.a8126ap-6,0x1.d09586p-6,0x1.fc110cp-6,
0x1.155406p-5,0x1.2e3ecep-5,0x1.48da5ap-5,0x1.653802p-5,0x1.8368f2p-5,0x1.a37e1p-5,0x1.c587eep-5,0x1.e996b6p-5,
0x1.07dd0ep-4,0x1.1c00a4p-4,0x1.313d62p-4,0x1.479a32p-4,0x1.5f1da4p-4,0x1.77cddap-4,0x1.91b084p-4,0x1.accad8p-4,
0x1.c92186p-4,0x1.e6b8bap-4,0x1.02ca02p-3,0x1.12db2ep-3,0x1.23910cp-3,0x1.34ec72p-3,0x1.46eddep-3,0x1.599572p-3,
0x1.6ce2eep-3,0x1.80d5b6p-3,0x1.956cc4p-3,0x1.aaa6acp-3,0x1.c0819ap-3,0x1.d6fb4cp-3,0x1.ee1114p-3,0x1.02dfe8p-2,
0x1.0f01fap-2,0x1.1b6ccp-2,0x1.281dfep-2,0x1.351342p-2,0x1.4249dep-2,0x1.4fbeeep-2,0x1.5d6f56p-2,0x1.6b57cp-2,
0x1.7974a2p-2,0x1.87c23ap-2,0x1.963c98p-2,0x1.a4df96p-2,0x1.b3a6e6p-2,0x1.c28e0ap-2,0x1.d1905ap-2,0x1.e0a90cp-2,
0x1.efd338p-2,0x1.ff09d2p-2,0x1.0723dcp-1,0x1.0ec3dcp-1,0x1.166248p-1,0x1.1dfc76p-1,0x1.258fc2p-1,0x1.2d1982p-1,
0x1.349712p-1,0x1.3c05d6p-1,0x1.43633ap-1,0x1.4aacb8p-1,0x1.51dfd6p-1,0x1.58fa32p-1,0x1.5ff97cp-1,0x1.66db7cp-1,
0x1.6d9e12p-1,0x1.743f3ep-1,0x1.7abd1ep-1,0x1.8115f2p-1,0x1.874818p-1,0x1.8d5216p-1,0x1.933296p-1,0x1.98e868p-1,
0x1.9e7282p-1,0x1.a3d006p-1,0x1.a90034p-1,0x1.ae027ep-1,0x1.b2d678p-1,0x1.b77bdap-1,0x1.bbf286p-1,0x1.c03a82p-1,
0x1.c453f8p-1,0x1.c83f3p-1,0x1.cbfc98p-1,0x1.cf8cb8p-1,0x1.d2f03ap-1,0x1.d627dep-1,0x1.d93482p-1,0x1.dc1718p-1,
0x1.ded0a6p-1,0x1.e16246p-1,0x1.e3cd24p-1,0x1.e6127ap-1,0x1.e8338cp-1,0x1.ea31aap-1,0x1.ec0e2cp-1,0x1.edca72p-1,
0x1.ef67dcp-1,0x1.f0e7dp-1,0x1.f24bb4p-1,0x1.f394eep-1,0x1.f4c4ep-1,0x1.f5dce8p-1,0x1.f6de5ep-1,0x1.f7ca9ap-1,
0x1.f8a2e4p-1,0x1.f9688p-1,0x1.fa1ca8p-1,0x1.fac08ap-1,0x1.fb554cp-1,0x1.fbdc08p-1,0x1.fc55c8p-1,0x1.fcc392p-1,
0x1.fd2654p-1,0x1.fd7efcp-1,0x1.fdce6p-1,0x1.fe155p-1,0x1.fe548cp-1,0x1.fe8cccp-1,0x1.febeb4p-1,0x1.feeae4p-1,
0x1.ff11ecp-1,0x1.ff3452p-1,0x1.ff528ep-1,0x1.ff6d14p-1,0x1.ff8446p-1,0x1.ff9886p-1,0x1.ffaa24p-1,0x1.ffb96ep-1,
0x1.ffc6aap-1,0x1.ffd214p-1,0x1.ffdbe2p-1,0x1.ffe444p-1,0x1.ffeb68p-1,0x1.fff172p-1,0x1.fff686p-1,0x1.fffacp-1,
0x1.fffe3ap-1,0x1.000086p+0,0x1.0001a6p+0,0x1.000284p+0,0x1.000328p+0,0x1.00039ap+0,0x1.0003ep+0,0x1.0003fep+0,
0x1.0003fcp+0,0x1.0003dap+0,0x1.00039ep+0,0x1.00034cp+0,0x1.0002e8p+0,0x1.000272p+0,0x1.0001f2p+0,0x1.000166p+0,
0x1.0000d2p+0,0x1.000038p+0,0x1.ffff38p-1,0x1.fffdfep-1,0x1.fffcc8p-1,0x1.fffb98p-1,0x1.fffa72p-1,0x1.fff95cp-1,
0x1.fff856p-1,0x1.fff764p-1,0x1.fff68cp-1,0x1.fff5ccp-1,0x1.fff528p-1,0x1.fff4a4p-1,0x1.fff43ep-1,0x1.fff3fap-1,
0x1.fff3d6p-1,0x1.fff3d6p-1,0x1.fff3f6p-1,0x1.fff43ap-1,0x1.fff49ep-1,0x1.fff522p-1,0x1.fff5c4p-1,0x1.fff684p-1,
0x1.fff75ep-1,0x1.fff85p-1,0x1.fff958p-1,0x1.fffa74p-1,0x1.fffb9ep-1,0x1.fffcd6p-1,0x1.fffe16p-1,0x1.ffff5cp-1,
0x1.000052p+0,0x1.0000f4p+0,0x1.000194p+0,0x1.00023p+0,0x1.0002c6p+0,0x1.000354p+0,0x1.0003d8p+0,0x1.000452p+0,
0x1.0004bep+0,0x1.00051ep+0,0x1.00057p+0,0x1.0005b2p+0,0x1.0005e4p+0,0x1.000604p+0,0x1.000616p+0,0x1.000614p+0,
0x1.000604p+0,0x1.0005ep+0,0x1.0005aep+0,0x1.00056ap+0,0x1.000518p+0,0x1.0004b8p+0,0x1.00044ap+0,0x1.0003dp+0,
0x1.00034cp+0,0x1.0002bcp+0,0x1.000226p+0,0x1.000188p+0,0x1.0000e6p+0,0x1.00003ep+0,0x1.ffff2cp-1,0x1.fffdd6p-1,
0x1.fffc82p-1,0x1.fffb2ep-1,0x1.fff9dep-1,0x1.fff894p-1,0x1.fff74ep-1,0x1.fff60cp-1,0x1.fff4cep-1,0x1.fff39p-1,
0x1.fff25p-1,0x1.fff106p-1,0x1.ffefbp-1,0x1.ffee4p-1,0x1.ffecbp-1,0x1.ffeafp-1,0x1.ffe8f4p-1,0x1.ffe6a4p-1,
0x1.ffe3fp-1,0x1.ffe0bcp-1,0x1.ffdceap-1,0x1.ffd85cp-1,0x1.ffd2e8p-1,0x1.ffcc66p-1,0x1.ffc4a4p-1,0x1.ffbb6ap-1,
0x1.ffb07cp-1,0x1.ffa398p-1,0x1.ff947p-1,0x1.ff82bp-1,0x1.ff6dfep-1,0x1.ff55f4p-1,0x1.ff3a26p-1,0x1.ff1a1ap-1,
0x1.fef54ep-1,0x1.fecb3ap-1,0x1.fe9b4p-1,0x1.fe64c2p-1,0x1.fe271p-1,0x1.fde17p-1,0x1.fd931cp-1,0x1.fd3b42p-1,
0x1.fcd902p-1,0x1.fc6b74p-1,0x1.fbf1ap-1,0x1.fb6a82p-1,0x1.fad50ep-1,0x1.fa302ap-1,0x1.f97abp-1,0x1.f8b374p-1,
0x1.f7d93ep-1,0x1.f6eaccp-1,0x1.f5e6d4p-1,0x1.f4cc0ap-1,0x1.f39912p-1,0x1.f24c98p-1,0x1.f0e53ap-1,0x1.ef6198p-1,
0x1.edc054p-1,0x1.ec000ap-1,0x1.ea1f62p-1,0x1.e81dp-1,0x1.e5f792p-1,0x1.e3addp-1,0x1.e13e78p-1,0x1.dea858p-1,
0x1.dbea4cp-1,0x1.d9033ep-1,0x1.d5f22cp-1,0x1.d2b62ap-1,0x1.cf4e6p-1,0x1.cbba1p-1,0x1.c7f89ap-1,0x1.c40976p-1,
0x1.bfec3cp-1,0x1.bba0a6p-1,0x1.b7269p-1,0x1.b27df4p-1,0x1.ada6f6p-1,0x1.a8a1dcp-1,0x1.a36f16p-1,0x1.9e0f38p-1,
0x1.9882fap-1,0x1.92cb44p-1,0x1.8ce91cp-1,0x1.86ddb4p-1,0x1.80aa6p-1,0x1.7a509ep-1,0x1.73d20ap-1,0x1.6d3064p-1,
0x1.666d9p-1,0x1.5f8b8ep-1,0x1.588c76p-1,0x1.517284p-1,0x1.4a4p-1,0x1.42f752p-1,0x1.3b9aecp-1,0x1.342d52p-1,
0x1.2cb118p-1,0x1.2528d6p-1,0x1.1d972cp-1,0x1.15fec2p-1,0x1.0e623cp-1,0x1.06c43ep-1,0x1.fe4edp-2,0x1.ef1cap-2,
0x1.dff706p-2,0x1.d0e30ap-2,0x1.c1e592p-2,0x1.b3036p-2,0x1.a44116p-2,0x1.95a32ep-2,0x1.872df2p-2,0x1.78e584p-2,
0x1.6acdd2p-2,0x1.5cea94p-2,0x1.4f3f56p-2,0x1.41cf66p-2,0x1.349ddep-2,0x1.27adap-2,0x1.1b0158p-2,0x1.0e9b74p-2,
0x1.027e2ep-2,0x1.ed5702p-3,0x1.d64a6cp-3,0x1.bfd9bp-3,0x1.aa077ep-3,0x1.94d612p-3,0x1.80474p-3,0x1.6c5c74p-3,
0x1.5916acp-3,0x1.467688p-3,0x1.347c46p-3,0x1.2327c4p-3,0x1.12788p-3,0x1.026daap-3,0x1.e60c24p-4,0x1.c8808p-4,
0x1.ac34d4p-4,0x1.9124fap-4,0x1.774c42p-4,0x1.5ea57ap-4,0x1.472af4p-4,0x1.30d69p-4,0x1.1ba1c6p-4,0x1.0785aap-4,
0x1.e8f5f8p-5,0x1.c4f45cp-5,0x1.a2f6d4p-5,0x1.82ed3ap-5,0x1.64c70ap-5,0x1.487362p-5,0x1.2de12p-5,0x1.14fef6p-5,
0x1.fb76dcp-6,0x1.d00a1p-6,0x1.a79486p-6,0x1.81f35ep-6,0x1.5f03f4p-6,0x1.3ea402p-6,0x1.20b1b6p-6,0x1.050bdp-6,
0x1.d72362p-7,0x1.a846f2p-7,0x1.7d4428p-7,0x1.55de98p-7,0x1.31dbbap-7,0x1.1102f6p-7,0x1.e63b8cp-8,0x1.afef7cp-8,
0x1.7ebd46p-8,0x1.5244dap-8,0x1.2a2aacp-8,0x1.0617aep-8,0x1.cb72a8p-9,0x1.91831cp-9,0x1.5dcd7ep-9,0x1.2fc74cp-9,
0x1.06ee9cp-9,0x1.c593cep-10,0x1.85cf9p-10,0x1.4dbd84p-10,0x1.1c99fp-10,0x1.e35f82p-11,0x1.98afdcp-11,0x1.57f1b4p-11,
0x1.200b54p-11,0x1.dff67p-12,0x1.8dad78p-12,0x1.479182p-12,0x1.0c20bcp-12,0x1.b3fe4ap-13,0x1.5fe7eap-13,0x1.19ce38p-13,
0x1.bf7b4ep-14,0x1.5ff50cp-14,0x1.11f8ep-14,0x1.a5a7dcp-15,0x1.4051ep-15,0x1.dfa154p-16,0x1.612328p-16,0x1.fe0178p-17,
0x1.67e7eep-17,0x1.ee0218p-18,0x1.4773b8p-18,0x1.9eeafp-19,0x1.ee01e8p-20,0x1.0bb9fp-20,0x1.eb70dep-22,0x1.24bc5ap-23};
static const int lim_0_6[50]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,18,20,22,24,26,28,30,32,35,38,41,45,49,53,57,62,67,73,79,85,92,100,108,117,127,137,149,161,174,189,204,221,240,};
static const float win_1_0[70]={
0x1.05124cp-10,0x1.f49248p-9,0x1.38a24ep-7,0x1.3ad84p-6,0x1.151cc2p-5,0x1.bc66f8p-5,0x1.4ca086p-4,0x1.d7edfap-4,
0x1.40800cp-3,0x1.a3b5aap-3,0x1.0a5c06p-2,0x1.48fdfep-2,0x1.8ca4c6p-2,0x1.d3eaap-2,0x1.0e9a14p-1,0x1.33615ep-1,
0x1.5764a2p-1,0x1.79c182p-1,0x1.99a5bap-1,0x1.b6581ap-1,0x1.cf4584p-1,0x1.e40758p-1,0x1.f46752p-1,0x1.00347cp+0,
0x1.0423d2p+0,0x1.063986p+0,0x1.06c32ap+0,0x1.061b96p+0,0x1.04a48ap+0,0x1.02c374p+0,0x1.00df4p+0,0x1.fe5a5cp-1,
0x1.fbf478p-1,0x1.fa7b22p-1,0x1.f9d6a8p-1,0x1.f9ebd4p-1,0x1.fa9d32p-1,0x1.fbcb3ep-1,0x1.fd546ep-1,0x1.ff15a4p-1,
0x1.007564p+0,0x1.015794p+0,0x1.021ed6p+0,0x1.02b8bcp+0,0x1.03137p+0,0x1.031e48p+0,0x1.02ca22p+0,0x1.0209e4p+0,
0x1.00d38p+0,0x1.fe4304p-1,0x1.f94194p-1,0x1.f23d72p-1,0x1.e87b08p-1,0x1.db5578p-1,0x1.ca4976p-1,0x1.b4faeep-1,
0x1.9b3e38p-1,0x1.7d2ba2p-1,0x1.5b2d22p-1,0x1.35f69ap-1,0x1.0e714p-1,0x1.cb6c4cp-2,0x1.7a0c5p-2,0x1.2b79cp-2,
0x1.c4c152p-3,0x1.422e4ap-3,0x1.a61a76p-4,0x1.ea1afep-5,0x1.d6855cp-6,0x1.3d525p-7};
static const int lim_1_0[40]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,40,};
static const float win_1_1[140]={
0x1.42172ap-11,0x1.867c36p-10,0x1.7a068p-9,0x1.435fccp-8,0x1.fdd026p-8,0x1.7a70ecp-7,0x1.0c3b48p-6,0x1.6e8774p-6,
0x1.e5f9c2p-6,0x1.3a37bp-5,0x1.8dc58cp-5,0x1.ee644ap-5,0x1.2e60e6p-4,0x1.6cb0a2p-4,0x1.b25268p-4,0x1.ff665ep-4,
0x1.29f856p-3,0x1.57f2cap-3,0x1.8991ecp-3,0x1.beb7b4p-3,0x1.f73f2ep-3,0x1.197b2ep-2,0x1.38d066p-2,0x1.597c14p-2,
0x1.7b550ap-2,0x1.9e2ebp-2,0x1.c1d7fap-2,0x1.e61daap-2,0x1.0564bcp-1,0x1.17d17ep-1,0x1.2a38f6p-1,0x1.3c7d8ap-1,
0x1.4e82bcp-1,0x1.602c22p-1,0x1.715da6p-1,0x1.81fdb6p-1,0x1.91f2bp-1,0x1.a12592p-1,0x1.af811ep-1,0x1.bcf282p-1,
0x1.c96ae2p-1,0x1.d4dcf8p-1,0x1.df3eeep-1,0x1.e8896p-1,0x1.f0b946p-1,0x1.f7cf54p-1,0x1.fdcf02p-1,0x1.016036p+0,
0x1.035706p+0,0x1.04d2ecp+0,0x1.05dc94p+0,0x1.067dbp+0,0x1.06c108p+0,0x1.06b22p+0,0x1.065cd4p+0,0x1.05cd58p+0,
0x1.051044p+0,0x1.04323ep+0,0x1.03401cp+0,0x1.02464cp+0,0x1.01608p+0,0x1.00667cp+0,0x1.ff1b0ap-1,0x1.fda99cp-1,
0x1.fc76f4p-1,0x1.fb80cep-1,0x1.fac484p-1,0x1.fa3f14p-1,0x1.f9ed44p-1,0x1.f9cbaap-1,0x1.f9d6b6p-1,0x1.fa0ab8p-1,
0x1.fa63e6p-1,0x1.fade4cp-1,0x1.fb75d8p-1,0x1.fc2658p-1,0x1.fceb7cp-1,0x1.fdc0ep-1,0x1.fea20cp-1,0x1.ff8a7ap-1,
0x1.003adp+0,0x1.00af72p+0,0x1.0120d4p+0,0x1.018ca4p+0,0x1.01f09p+0,0x1.024a46p+0,0x1.02978p+0,0x1.02d602p+0,
0x1.03039ep+0,0x1.031e4p+0,0x1.0323eap+0,0x1.0312b2p+0,0x1.02e8d4p+0,0x1.02a4a8p+0,0x1.0244b2p+0,0x1.01c7acp+0,
0x1.012c9p+0,0x1.0072aep+0,0x1.ff335ap-1,0x1.fd42c4p-1,0x1.faa9aap-1,0x1.f7b89cp-1,0x1.f43956p-1,0x1.f01582p-1,
0x1.eb36fap-1,0x1.e588b6p-1,0x1.def806p-1,0x1.d7746cp-1,0x1.ceefccp-1,0x1.c55eb6p-1,0x1.bab83p-1,0x1.aef66ap-1,
0x1.a217c4p-1,0x1.941ef4p-1,0x1.8513dep-1,0x1.75042cp-1,0x1.640212p-1,0x1.522454p-1,0x1.3f8598p-1,0x1.2c42acp-1,
0x1.187b58p-1,0x1.04538ep-1,0x1.dfe228p-2,0x1.b6f7ap-2,0x1.8e3ca8p-2,0x1.6608dap-2,0x1.3eb4acp-2,0x1.1896d2p-2,
0x1.e801d2p-3,0x1.a27bf4p-3,0x1.61234ap-3,0x1.24712cp-3,0x1.d9a7dap-4,0x1.756252p-4,0x1.1cc8dcp-4,0x1.a0e38cp-5,
0x1.217566p-5,0x1.76a654p-6,0x1.b67p-7,0x1.b33136p-8};
static const int lim_1_1[51]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,32,34,36,38,40,42,44,46,48,50,52,54,57,60,63,66,69,72,76,80,};
static const float win_1_2[210]={
0x1.0ab79ep-11,0x1.05124cp-10,0x1.b8fb12p-10,0x1.560ee8p-9,0x1.f49248p-9,0x1.5e92bp-8,0x1.dabc94p-8,0x1.38a24ep-7,
0x1.9245b6p-7,0x1.fb8f5ep-7,0x1.3ad84p-6,0x1.80ebb4p-6,0x1.d084e4p-6,0x1.151cc2p-5,0x1.4743f4p-5,0x1.7ef524p-5,
0x1.bc66f8p-5,0x1.ffd14p-5,0x1.24b186p-4,0x1.4ca086p-4,0x1.77c89p-4,0x1.a6338ap-4,0x1.d7edfap-4,0x1.067c32p-3,
0x1.22aa54p-3,0x1.40800cp-3,0x1.5ff7c8p-3,0x1.810d2ep-3,0x1.a3b5aap-3,0x1.c7e8f6p-3,0x1.ed9956p-3,0x1.0a5c06p-2,
0x1.1e9abap-2,0x1.337eb4p-2,0x1.48fdfep-2,0x1.5f0c6ep-2,0x1.759dc6p-2,0x1.8ca4c6p-2,0x1.a41334p-2,0x1.bbda2cp-2,
0x1.d3eaap-2,0x1.ec34aap-2,0x1.025408p-1,0x1.0e9a14p-1,0x1.1ae3dap-1,0x1.272956p-1,0x1.33615ep-1,0x1.3f839cp-1,
0x1.4b8784p-1,0x1.5764a2p-1,0x1.6312dp-1,0x1.6e897ep-1,0x1.79c182p-1,0x1.84b312p-1,0x1.8f56bep-1,0x1.99a5bap-1,
0x1.a399aep-1,0x1.ad2c56p-1,0x1.b6581ap-1,0x1.bf183ap-1,0x1.c768a4p-1,0x1.cf4584p-1,0x1.d6ab08p-1,0x1.dd972ep-1,
0x1.e40758p-1,0x1.e9fa62p-1,0x1.ef6fa4p-1,0x1.f46752p-1,0x1.f8e276p-1,0x1.fce21p-1,0x1.00347cp+0,0x1.01bcd8p+0,
0x1.030bf6p+0,0x1.0423d2p+0,0x1.0506e4p+0,0x1.05b7dap+0,0x1.063986p+0,0x1.068f1ep+0,0x1.06bbd2p+0,0x1.06c32ap+0,
0x1.06a874p+0,0x1.066f68p+0,0x1.061b96p+0,0x1.05b0aap+0,0x1.05326ap+0,0x1.04a48ap+0,0x1.040af4p+0,0x1.036954p+0,
0x1.02c374p+0,0x1.021daap+0,0x1.018c4ap+0,0x1.00df4p+0,0x1.00400ep+0,0x1.ff5ed8p-1,0x1.fe5a5cp-1,0x1.fd7232p-1,
0x1.fca5cap-1,0x1.fbf478p-1,0x1.fb5d7cp-1,0x1.faep-1,0x1.fa7b22p-1,0x1.fa2df2p-1,0x1.f9f776p-1,0x1.f9d6a8p-1,
0x1.f9ca8p-1,0x1.f9d1ecp-1,0x1.f9ebd4p-1,0x1.fa171cp-1,0x1.fa529ep-1,0x1.fa9d32p-1,0x1.faf5a4p-1,0x1.fb5abep-1,
0x1.fbcb3ep-1,0x1.fc45e2p-1,0x1.fcc962p-1,0x1.fd546ep-1,0x1.fde5b4p-1,0x1.fe7be4p-1,0x1.ff15a4p-1,0x1.ffb1ap-1,
0x1.002736p+0,0x1.007564p+0,0x1.00c2a2p+0,0x1.010e42p+0,0x1.015794p+0,0x1.019de8p+0,0x1.01e08ep+0,0x1.021ed6p+0,
0x1.025814p+0,0x1.028b98p+0,0x1.02b8bcp+0,0x1.02ded6p+0,0x1.02fd48p+0,0x1.03137p+0,0x1.0320b4p+0,0x1.032482p+0,
0x1.031e48p+0,0x1.030d7ap+0,0x1.02f198p+0,0x1.02ca22p+0,0x1.0296a2p+0,0x1.0256aep+0,0x1.0209e4p+0,0x1.01afeep+0,
0x1.01488ap+0,0x1.00d38p+0,0x1.0050aep+0,0x1.ff8004p-1,0x1.fe4304p-1,0x1.fcec3p-1,0x1.fb1cc6p-1,0x1.f94194p-1,
0x1.f72ddap-1,0x1.f4d956p-1,0x1.f23d72p-1,0x1.ef534cp-1,0x1.ec149ap-1,0x1.e87b08p-1,0x1.e480d2p-1,0x1.e020ap-1,
0x1.db5578p-1,0x1.d61b32p-1,0x1.d06d98p-1,0x1.ca4976p-1,0x1.c3abbcp-1,0x1.bc9226p-1,0x1.b4faeep-1,0x1.ace514p-1,
0x1.a4509cp-1,0x1.9b3e38p-1,0x1.91afe4p-1,0x1.87a83ep-1,0x1.7d2ba2p-1,0x1.723ebap-1,0x1.66e7a4p-1,0x1.5b2d22p-1,
0x1.4f1684p-1,0x1.42ac5ap-1,0x1.35f69ap-1,0x1.28ff24p-1,0x1.1bcee8p-1,0x1.0e714p-1,0x1.00f0c6p-1,0x1.e6b28p-2,
0x1.cb6c4cp-2,0x1.b02824p-2,0x1.94ff78p-2,0x1.7a0c5p-2,0x1.5f68d2p-2,0x1.452f5p-2,0x1.2b79cp-2,0x1.12608ap-2,
0x1.f3f6d4p-3,0x1.c4c152p-3,0x1.974a28p-3,0x1.6bb7dap-3,0x1.422e4ap-3,0x1.1acf1cp-3,0x1.eb7414p-4,0x1.a61a76p-4,
0x1.65ca02p-4,0x1.2ab6acp-4,0x1.ea1afep-5,0x1.89e2d2p-5,0x1.34ee7p-5,0x1.d6855cp-6,0x1.596eb2p-6,0x1.e3c022p-7,
0x1.3d525p-7,0x1.71c3e2p-8};
static const int lim_1_2[53]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,26,28,30,32,34,36,38,40,42,44,47,50,53,56,59,62,65,69,73,77,81,86,91,96,101,107,113,120,};
static const float win_1_3[280]={
0x1.e1e9e2p-12,0x1.9f335cp-11,0x1.41e4ccp-10,0x1.d392f2p-10,0x1.44ffep-9,0x1.b47188p-9,0x1.1d5034p-8,0x1.6cb4ap-8,
0x1.c9d772p-8,0x1.1ac8b4p-7,0x1.588114p-7,0x1.9e8ad2p-7,0x1.ed8406p-7,0x1.22e9b2p-6,0x1.540bc6p-6,0x1.8a5516p-6,
0x1.c608e2p-6,0x1.03ae52p-5,0x1.274a24p-5,0x1.4dea9ep-5,0x1.77b03p-5,0x1.a4abap-5,0x1.d4f958p-5,0x1.0455f8p-4,
0x1.1fed22p-4,0x1.3d469p-4,0x1.5c6e8ap-4,0x1.7d67a4p-4,0x1.a03868p-4,0x1.c4e416p-4,0x1.eb6f06p-4,0x1.09ea76p-3,
0x1.1f0d74p-3,0x1.351e8ap-3,0x1.4c1c3cp-3,0x1.6403d2p-3,0x1.7cd46cp-3,0x1.9687a2p-3,0x1.b11b4ep-3,0x1.cc8a5ap-3,
0x1.e8cf2cp-3,0x1.02f12p-2,0x1.11dfa6p-2,0x1.212e4ap-2,0x1.30d996p-2,0x1.40dcb4p-2,0x1.513368p-2,0x1.61d79ap-2,
0x1.72c4f8p-2,0x1.83f526p-2,0x1.9562ecp-2,0x1.a70774p-2,0x1.b8dd12p-2,0x1.cadcbcp-2,0x1.dd00a6p-2,0x1.ef411p-2,
0x1.00cc02p-1,0x1.09fee4p-1,0x1.1335c8p-1,0x1.1c6ce8p-1,0x1.25a13ep-1,0x1.2ece6ep-1,0x1.37f13ap-1,0x1.4105e6p-1,
0x1.4a090ap-1,0x1.52f6b4p-1,0x1.5bcbfcp-1,0x1.6484ccp-1,0x1.6d1dfep-1,0x1.75944ap-1,0x1.7de4d4p-1,0x1.860be4p-1,
0x1.8e06d4p-1,0x1.95d268p-1,0x1.9d6c44p-1,0x1.a4d168p-1,0x1.abff96p-1,0x1.b2f408p-1,0x1.b9ad14p-1,0x1.c0286ap-1,
0x1.c664e4p-1,0x1.cc6082p-1,0x1.d219c2p-1,0x1.d78f34p-1,0x1.dcc06ep-1,0x1.e1abe2p-1,0x1.e65132p-1,0x1.eaafe6p-1,
0x1.eec7ecp-1,0x1.f299p-1,0x1.f6241cp-1,0x1.f96914p-1,0x1.fc68d2p-1,0x1.ff2458p-1,0x1.00ce7cp+0,0x1.01e9ccp+0,
0x1.02e528p+0,0x1.03c132p+0,0x1.047f08p+0,0x1.051faep+0,0x1.05a468p+0,0x1.060e34p+0,0x1.065ea4p+0,0x1.0696dap+0,
0x1.06b85ep+0,0x1.06c48ep+0,0x1.06bcf6p+0,0x1.06a2e2p+0,0x1.067818p+0,0x1.063deap+0,0x1.05f6p+0,0x1.05a1d8p+0,
0x1.054328p+0,0x1.04db5p+0,0x1.046c26p+0,0x1.03f718p+0,0x1.037ddep+0,0x1.0301e6p+0,0x1.0284eep+0,0x1.020858p+0,
0x1.01a3eap+0,0x1.011eb6p+0,0x1.00a1dcp+0,0x1.002d28p+0,0x1.ff8176p-1,0x1.feb8a6p-1,0x1.fe000ep-1,0x1.fd5718p-1,
0x1.fcbde4p-1,0x1.fc33ccp-1,0x1.fbb8dap-1,0x1.fb4c6p-1,0x1.faee5ep-1,0x1.fa9e16p-1,0x1.fa5b84p-1,0x1.fa25dep-1,
0x1.f9fd1cp-1,0x1.f9e07p-1,0x1.f9cfc8p-1,0x1.f9ca56p-1,0x1.f9d002p-1,0x1.f9dff8p-1,0x1.f9fa2p-1,0x1.fa1da4p-1,
0x1.fa4a6p-1,0x1.fa7f7ep-1,0x1.fabcd8p-1,0x1.fb0192p-1,0x1.fb4d8p-1,0x1.fb9fcp-1,0x1.fbf828p-1,0x1.fc55d2p-1,
0x1.fcb88cp-1,0x1.fd1f7p-1,0x1.fd8a4cp-1,0x1.fdf832p-1,0x1.fe68fp-1,0x1.fedb9ap-1,0x1.ff4ffcp-1,0x1.ffc526p-1,
0x1.001d7p+0,0x1.00582p+0,0x1.009286p+0,0x1.00cc2ap+0,0x1.0104fp+0,0x1.013c6p+0,0x1.01725cp+0,0x1.01a66ep+0,
0x1.01d878p+0,0x1.020804p+0,0x1.0234f4p+0,0x1.025ed2p+0,0x1.028584p+0,0x1.02a892p+0,0x1.02c7e8p+0,0x1.02e30ep+0,
0x1.02f9fp+0,0x1.030c1cp+0,0x1.031982p+0,0x1.0321bp+0,0x1.032498p+0,0x1.0321cep+0,0x1.031944p+0,0x1.030a96p+0,
0x1.02f5bap+0,0x1.02da4ap+0,0x1.02b846p+0,0x1.028f4ep+0,0x1.025f64p+0,0x1.02283p+0,0x1.01e9bcp+0,0x1.01a3bap+0,
0x1.01563ap+0,0x1.0100fap+0,0x1.00a416p+0,0x1.003f54p+0,0x1.ffa5bep-1,0x1.febd12p-1,0x1.fdc514p-1,0x1.fcbd84p-1,
0x1.fb5304p-1,0x1.f9f9ap-1,0x1.f8816p-1,0x1.f6e6eap-1,0x1.f527b6p-1,0x1.f340a6p-1,0x1.f12f32p-1,0x1.eef028p-1,
0x1.ec8154p-1,0x1.e9df9ep-1,0x1.e708dap-1,0x1.e3fa6ep-1,0x1.e0b276p-1,0x1.dd2e66p-1,0x1.d96ceep-1,0x1.d56bd6p-1,
0x1.d129c6p-1,0x1.cca50cp-1,0x1.c7dcc4p-1,0x1.c2cf4cp-1,0x1.bd7c3ap-1,0x1.b7e268p-1,0x1.b201ap-1,0x1.abd962p-1,
0x1.a56a24p-1,0x1.9eb3bap-1,0x1.97b75p-1,0x1.907572p-1,0x1.88efc2p-1,0x1.8127bep-1,0x1.791fbap-1,0x1.70d974p-1,
0x1.685826p-1,0x1.5f9e42p-1,0x1.56af0ap-1,0x1.4d8d9ep-1,0x1.443dfep-1,0x1.3ac2f2p-1,0x1.31211p-1,0x1.275cp-1,
0x1.1d77a4p-1,0x1.1378eep-1,0x1.096492p-1,0x1.fe7d96p-2,0x1.ea1a36p-2,0x1.d5a7a4p-2,0x1.c1313cp-2,0x1.acc0ecp-2,
0x1.98624p-2,0x1.841f78p-2,0x1.700452p-2,0x1.5c1b2cp-2,0x1.486fdep-2,0x1.350caap-2,0x1.21fcb8p-2,0x1.0f4982p-2,
0x1.f9fb0ap-3,0x1.d64312p-3,0x1.b37e5ep-3,0x1.91bc6ep-3,0x1.710e8cp-3,0x1.51828p-3,0x1.33281p-3,0x1.160b9ep-3,
0x1.f4777ap-4,0x1.bf87ap-4,0x1.8d62ap-4,0x1.5e1cecp-4,0x1.31ce7p-4,0x1.0887b4p-4,0x1.c4b684p-5,0x1.7ea57cp-5,
0x1.3eef4p-5,0x1.05919p-5,0x1.a509acp-6,0x1.4b53b4p-6,0x1.fb5a5p-7,0x1.772b44p-7,0x1.08a672p-7,0x1.5b57fcp-8};
static const int lim_1_3[55]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,24,26,28,30,32,34,36,38,40,42,45,48,51,54,57,61,65,69,73,78,83,88,93,99,105,112,119,126,134,142,151,160,};
static const float win_1_4[420]={
0x1.ace0f6p-12,0x1.42172ap-11,0x1.c16836p-11,0x1.2caeep-10,0x1.867c36p-10,0x1.ef6458p-10,0x1.34699ap-9,0x1.7a068p-9,
0x1.c93508p-9,0x1.1149acp-8,0x1.435fccp-8,0x1.7b4308p-8,0x1.b94e9ep-8,0x1.fdd026p-8,0x1.24857cp-7,0x1.4da50cp-7,
0x1.7a70ecp-7,0x1.ab14dcp-7,0x1.dfb522p-7,0x1.0c3b48p-6,0x1.2ac144p-6,0x1.4b7fcp-6,0x1.6e8774p-6,0x1.93e78cp-6,
0x1.bbb208p-6,0x1.e5f9c2p-6,0x1.09695p-5,0x1.21251ep-5,0x1.3a37bp-5,0x1.54a8fap-5,0x1.7080a8p-5,0x1.8dc58cp-5,
0x1.ac7d9p-5,0x1.ccaff4p-5,0x1.ee644ap-5,0x1.08d064p-4,0x1.1b3498p-4,0x1.2e60e6p-4,0x1.4257e2p-4,0x1.571cb6p-4,
0x1.6cb0a2p-4,0x1.831486p-4,0x1.9a49c8p-4,0x1.b25268p-4,0x1.cb2fbp-4,0x1.e4e13ap-4,0x1.ff665ep-4,0x1.0d5fcp-3,
0x1.1b76dep-3,0x1.29f856p-3,0x1.38e34ep-3,0x1.4836dcp-3,0x1.57f2cap-3,0x1.6816b6p-3,0x1.78a19ep-3,0x1.8991ecp-3,
0x1.9ae63ap-3,0x1.ac9dd2p-3,0x1.beb7b4p-3,0x1.d1320ap-3,0x1.e40a6p-3,0x1.f73f2ep-3,0x1.05676p-2,0x1.0f5baap-2,
0x1.197b2ep-2,0x1.23c498p-2,0x1.2e36bap-2,0x1.38d066p-2,0x1.43904p-2,0x1.4e74aep-2,0x1.597c14p-2,0x1.64a4fap-2,
0x1.6feddap-2,0x1.7b550ap-2,0x1.86d8c2p-2,0x1.92773cp-2,0x1.9e2ebp-2,0x1.a9fd3ep-2,0x1.b5e0f6p-2,0x1.c1d7fap-2,
0x1.cde07ap-2,0x1.d9f864p-2,0x1.e61daap-2,0x1.f24e44p-2,0x1.fe8834p-2,0x1.0564bcp-1,0x1.0b87e8p-1,0x1.11ac7cp-1,
0x1.17d17ep-1,0x1.1df5fap-1,0x1.2418dcp-1,0x1.2a38f6p-1,0x1.305516p-1,0x1.366c46p-1,0x1.3c7d8ap-1,0x1.4287c8p-1,
0x1.4889ep-1,0x1.4e82bcp-1,0x1.54716ap-1,0x1.5a54fp-1,0x1.602c22p-1,0x1.65f5f6p-1,0x1.6bb16ap-1,0x1.715da6p-1,
0x1.76f9cep-1,0x1.7c84dp-1,0x1.81fdb6p-1,0x1.876392p-1,0x1.8cb582p-1,0x1.91f2bp-1,0x1.971a46p-1,0x1.9c2b8p-1,
0x1.a12592p-1,0x1.a607b2p-1,0x1.aad11ep-1,0x1.af811ep-1,0x1.b41716p-1,0x1.b8926cp-1,0x1.bcf282p-1,0x1.c136e8p-1,
0x1.c55f5p-1,0x1.c96ae2p-1,0x1.cd5966p-1,0x1.d12a2ep-1,0x1.d4dcf8p-1,0x1.d8719p-1,0x1.dbe7a8p-1,0x1.df3eeep-1,
0x1.e27706p-1,0x1.e58fd6p-1,0x1.e8896p-1,0x1.eb638cp-1,0x1.ee1e28p-1,0x1.f0b946p-1,0x1.f33514p-1,0x1.f591c4p-1,
0x1.f7cf54p-1,0x1.f9edd6p-1,0x1.fbed98p-1,0x1.fdcf02p-1,0x1.ff927p-1,0x1.009c1p+0,0x1.016036p+0,0x1.0215e8p+0,
0x1.02bd7p+0,0x1.035706p+0,0x1.03e2ecp+0,0x1.04616ep+0,0x1.04d2ecp+0,0x1.0537bcp+0,0x1.05902cp+0,0x1.05dc94p+0,
0x1.061d5cp+0,0x1.0652fp+0,0x1.067dbp+0,0x1.069dfep+0,0x1.06b448p+0,0x1.06c108p+0,0x1.06c4a6p+0,0x1.06bf8ap+0,
0x1.06b22p+0,0x1.069ce4p+0,0x1.06805p+0,0x1.065cd4p+0,0x1.0632dap+0,0x1.0602dcp+0,0x1.05cd58p+0,0x1.0592c8p+0,
0x1.05539ap+0,0x1.051044p+0,0x1.04c942p+0,0x1.047f1ap+0,0x1.04323ep+0,0x1.03e328p+0,0x1.039248p+0,0x1.03401cp+0,
0x1.02ed2p+0,0x1.0299bcp+0,0x1.02464cp+0,0x1.01f198p+0,0x1.01be04p+0,0x1.01608p+0,0x1.01095cp+0,0x1.00b616p+0,
0x1.00667cp+0,0x1.001a8ap+0,0x1.ffa472p-1,0x1.ff1b0ap-1,0x1.fe98cep-1,0x1.fe1daep-1,0x1.fda99cp-1,0x1.fd3c86p-1,
0x1.fcd654p-1,0x1.fc76f4p-1,0x1.fc1e4ep-1,0x1.fbcc4ap-1,0x1.fb80cep-1,0x1.fb3bc2p-1,0x1.fafd08p-1,0x1.fac484p-1,
0x1.fa9218p-1,0x1.fa65a8p-1,0x1.fa3f14p-1,0x1.fa1e3cp-1,0x1.fa0302p-1,0x1.f9ed44p-1,0x1.f9dce2p-1,0x1.f9d1bap-1,
0x1.f9cbaap-1,0x1.f9ca9p-1,0x1.f9ce4ap-1,0x1.f9d6b6p-1,0x1.f9e3aep-1,0x1.f9f51p-1,0x1.fa0ab8p-1,0x1.fa2482p-1,
0x1.fa4248p-1,0x1.fa63e6p-1,0x1.fa8934p-1,0x1.fab20ep-1,0x1.fade4cp-1,0x1.fb0dc8p-1,0x1.fb4058p-1,0x1.fb75d8p-1,
0x1.fbae1ep-1,0x1.fbe9p-1,0x1.fc2658p-1,0x1.fc65fap-1,0x1.fca7cp-1,0x1.fceb7cp-1,0x1.fd3108p-1,0x1.fd7838p-1,
0x1.fdc0ep-1,0x1.fe0ad8p-1,0x1.fe55f6p-1,0x1.fea20cp-1,0x1.feeefp-1,0x1.ff3c7ap-1,0x1.ff8a7ap-1,0x1.ffd8bap-1,
0x1.0013a4p+0,0x1.003adp+0,0x1.0061e8p+0,0x1.0088dp+0,0x1.00af72p+0,0x1.00d5b8p+0,0x1.00fb8ap+0,0x1.0120d4p+0,
0x1.01458p+0,0x1.016978p+0,0x1.018ca4p+0,0x1.01aefp+0,0x1.01d046p+0,0x1.01f09p+0,0x1.020fb6p+0,0x1.022da6p+0,
0x1.024a46p+0,0x1.026584p+0,0x1.027f4ap+0,0x1.02978p+0,0x1.02ae14p+0,0x1.02c2f2p+0,0x1.02d602p+0,0x1.02e732p+0,
0x1.02f66cp+0,0x1.03039ep+0,0x1.030eb4p+0,0x1.03179cp+0,0x1.031e4p+0,0x1.03229p+0,0x1.03247ap+0,0x1.0323eap+0,
0x1.0320cep+0,0x1.031b18p+0,0x1.0312b2p+0,0x1.030792p+0,0x1.02f9a2p+0,0x1.02e8d4p+0,0x1.02d51cp+0,0x1.02be66p+0,
0x1.02a4a8p+0,0x1.0287d4p+0,0x1.0267dcp+0,0x1.0244b2p+0,0x1.021e4ep+0,0x1.01f4a4p+0,0x1.01c7acp+0,0x1.01975ap+0,
0x1.0163a8p+0,0x1.012c9p+0,0x1.00f20cp+0,0x1.00b418p+0,0x1.0072aep+0,0x1.002ddp+0,0x1.ffcaf2p-1,0x1.ff335ap-1,
0x1.fe94d8p-1,0x1.fdef6cp-1,0x1.fd42c4p-1,0x1.fc8a02p-1,0x1.fb8546p-1,0x1.faa9aap-1,0x1.f9bd2ap-1,0x1.f8c258p-1,
0x1.f7b89cp-1,0x1.f69f0ep-1,0x1.f574e4p-1,0x1.f43956p-1,0x1.f2eb7cp-1,0x1.f18a7ep-1,0x1.f01582p-1,0x1.ee8bc6p-1,
0x1.ecec8cp-1,0x1.eb36fap-1,0x1.e96a48p-1,0x1.e785bep-1,0x1.e588b6p-1,0x1.e3728ap-1,0x1.e14288p-1,0x1.def806p-1,
0x1.dc9284p-1,0x1.da117ep-1,0x1.d7746cp-1,0x1.d4bac2p-1,0x1.d1e4p-1,0x1.ceefccp-1,0x1.cbddc6p-1,0x1.c8ad8ap-1,
0x1.c55eb6p-1,0x1.c1f104p-1,0x1.be644p-1,0x1.bab83p-1,0x1.b6ec98p-1,0x1.b30156p-1,0x1.aef66ap-1,0x1.aacbd2p-1,
0x1.a68198p-1,0x1.a217c4p-1,0x1.9d8e88p-1,0x1.98e62ep-1,0x1.941ef4p-1,0x1.8f392ep-1,0x1.8a354ep-1,0x1.8513dep-1,
0x1.7fd584p-1,0x1.7a7abep-1,0x1.75042cp-1,0x1.6f72a2p-1,0x1.69c6fcp-1,0x1.640212p-1,0x1.5e24b8p-1,0x1.582fc8p-1,
0x1.522454p-1,0x1.4c0386p-1,0x1.45ce4ap-1,0x1.3f8598p-1,0x1.392a96p-1,0x1.32be88p-1,0x1.2c42acp-1,0x1.25b802p-1,
0x1.1f1f9ep-1,0x1.187b58p-1,0x1.11cc52p-1,0x1.0b13fp-1,0x1.04538ep-1,0x1.fb194p-2,0x1.ed815ap-2,0x1.dfe228p-2,
0x1.d23ea4p-2,0x1.c49a12p-2,0x1.b6f7ap-2,0x1.a95a5ep-2,0x1.9bc5a2p-2,0x1.8e3ca8p-2,0x1.80c2a8p-2,0x1.735aecp-2,
0x1.6608dap-2,0x1.58cf82p-2,0x1.4bb26cp-2,0x1.3eb4acp-2,0x1.31d96p-2,0x1.2523d2p-2,0x1.1896d2p-2,0x1.0c358p-2,
0x1.000294p-2,0x1.e801d2p-3,0x1.d0666cp-3,0x1.b93822p-3,0x1.a27bf4p-3,0x1.8c36bp-3,0x1.766cf8p-3,0x1.61234ap-3,
0x1.4c5dfcp-3,0x1.382142p-3,0x1.24712cp-3,0x1.1151bp-3,0x1.fd8d5cp-4,0x1.d9a7dap-4,0x1.b6fa26p-4,0x1.958b5cp-4,
0x1.756252p-4,0x1.56858ap-4,0x1.38fb2ap-4,0x1.1cc8dcp-4,0x1.01f3b6p-4,0x1.d1004ep-5,0x1.a0e38cp-5,0x1.739676p-5,
0x1.491c3p-5,0x1.217566p-5,0x1.f94034p-6,0x1.b52efp-6,0x1.76a654p-6,0x1.3d8f86p-6,0x1.09ccbap-6,0x1.b67p-7,
0x1.6346dap-7,0x1.19b2ccp-7,0x1.b33136p-8,0x1.52ff8ep-8};
static const int lim_1_4[56]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,23,25,27,29,31,33,35,37,40,43,46,49,52,55,59,63,67,72,77,82,87,93,99,105,112,120,128,136,145,155,165,176,187,200,};
static const float win_1_5[420]={
0x1.a2dd9ap-24,0x1.58536ap-21,0x1.fb0008p-20,0x1.2544acp-18,0x1.28f984p-17,0x1.134f64p-16,0x1.de9896p-16,0x1.8bbd36p-15,
0x1.3a4ef2p-14,0x1.e2d292p-14,0x1.686cdp-13,0x1.067f2ep-12,0x1.7625bap-12,0x1.058c58p-11,0x1.6762e6p-11,0x1.e61ff4p-11,
0x1.4418b4p-10,0x1.aa7cdep-10,0x1.153774p-9,0x1.6453dcp-9,0x1.c5350ep-9,0x1.1d6102p-8,0x1.641346p-8,0x1.b86896p-8,
0x1.0e1bdap-7,0x1.48ba16p-7,0x1.8d1556p-7,0x1.dc3e4p-7,0x1.1ba682p-6,0x1.4faf14p-6,0x1.8ac76ap-6,0x1.cd7c56p-6,
0x1.0c2b58p-5,0x1.35ec6ep-5,0x1.643e2p-5,0x1.97574cp-5,0x1.cf679cp-5,0x1.064b16p-4,0x1.27801ap-4,0x1.4b5be2p-4,
0x1.71e148p-4,0x1.9b0c76p-4,0x1.c6d272p-4,0x1.f520c6p-4,0x1.12eea2p-3,0x1.2c72f8p-3,0x1.470882p-3,0x1.629692p-3,
0x1.7f00dcp-3,0x1.9c27b8p-3,0x1.b9e874p-3,0x1.d81dcp-3,0x1.f6a028p-3,0x1.0aa35p-2,0x1.19f388p-2,0x1.292b88p-2,
0x1.383636p-2,0x1.46fef8p-2,0x1.5571fap-2,0x1.637c86p-2,0x1.710d54p-2,0x1.7e14d4p-2,0x1.8a8554p-2,0x1.965346p-2,
0x1.a1755ep-2,0x1.abe4bp-2,0x1.b59cb8p-2,0x1.be9b5ep-2,0x1.c6e0e6p-2,0x1.ce6fe2p-2,0x1.d54d06p-2,0x1.db7efep-2,
0x1.e10e46p-2,0x1.e604e8p-2,0x1.ea6e4ap-2,0x1.ee56ecp-2,0x1.f1cc3p-2,0x1.f4dc2p-2,0x1.f79534p-2,0x1.fa0624p-2,
0x1.fc3dbap-2,0x1.fe4aaap-2,0x1.001db8p-1,0x1.010f1ap-1,0x1.02005cp-1,0x1.02f82p-1,0x1.03fcc8p-1,0x1.051464p-1,
0x1.0644c2p-1,0x1.079354p-1,0x1.09054p-1,0x1.0a9f4cp-1,0x1.0c65e8p-1,0x1.0e5d1ep-1,0x1.108896p-1,0x1.12eb84p-1,
0x1.1588bp-1,0x1.186264p-1,0x1.1b7a6ep-1,0x1.1ed21p-1,0x1.226a02p-1,0x1.26427p-1,0x1.2a5aeap-1,0x1.2eb274p-1,
0x1.334776p-1,0x1.3817cep-1,0x1.3d20c4p-1,0x1.425f1ep-1,0x1.47cf22p-1,0x1.4d6cap-1,0x1.533302p-1,0x1.591d52p-1,
0x1.5f265p-1,0x1.65487cp-1,0x1.6b7e2ap-1,0x1.71c19p-1,0x1.780cd2p-1,0x1.7e5a1ap-1,0x1.84a3a6p-1,0x1.8ae3dp-1,
0x1.91152p-1,0x1.97325cp-1,0x1.9d368cp-1,0x1.a31d06p-1,0x1.a8e178p-1,0x1.ae7feep-1,0x1.b3f4dp-1,0x1.b93ceep-1,
0x1.be557cp-1,0x1.c33c16p-1,0x1.c7eebap-1,0x1.cc6bc8p-1,0x1.d0b206p-1,0x1.d4c094p-1,0x1.d896e8p-1,0x1.dc34d4p-1,
0x1.df9a76p-1,0x1.e2c83ep-1,0x1.e5bee2p-1,0x1.e87f5ap-1,0x1.eb0ae6p-1,0x1.ed62f6p-1,0x1.ef893ap-1,0x1.f17f8ep-1,
0x1.f347fap-1,0x1.f4e4acp-1,0x1.f657fp-1,0x1.f7a42ep-1,0x1.f8cbep-1,0x1.f9d188p-1,0x1.fab7b2p-1,0x1.fb80e8p-1,
0x1.fc2fa8p-1,0x1.fcc66ap-1,0x1.fd478ep-1,0x1.fdb562p-1,0x1.fe1214p-1,0x1.fe5fb8p-1,0x1.fea03ep-1,0x1.fed576p-1,
0x1.ff010ap-1,0x1.ff248p-1,0x1.ff4138p-1,0x1.ff586ep-1,0x1.ff6b3ap-1,0x1.ff7a9p-1,0x1.ff8746p-1,0x1.ff920ep-1,
0x1.ff9b8p-1,0x1.ffa414p-1,0x1.ffac32p-1,0x1.ffb42p-1,0x1.ffbc18p-1,0x1.ffc442p-1,0x1.ffccb2p-1,0x1.ffd574p-1,
0x1.ffde84p-1,0x1.ffe7dep-1,0x1.fff16ep-1,0x1.fffb22p-1,0x1.00026ep+0,0x1.000746p+0,0x1.000c06p+0,0x1.0010a2p+0,
0x1.00150cp+0,0x1.001936p+0,0x1.001d16p+0,0x1.00209ep+0,0x1.0023c8p+0,0x1.002686p+0,0x1.0028d4p+0,0x1.002aacp+0,
0x1.002c08p+0,0x1.002ce8p+0,0x1.002d46p+0,0x1.002d28p+0,0x1.002c8ap+0,0x1.002b7p+0,0x1.0029ep+0,0x1.0027dep+0,
0x1.00256ep+0,0x1.00229cp+0,0x1.001f6ep+0,0x1.001becp+0,0x1.00182p+0,0x1.001414p+0,0x1.000fd6p+0,0x1.000b6cp+0,
0x1.0006e6p+0,0x1.00024ep+0,0x1.fffb62p-1,0x1.fff232p-1,0x1.ffe928p-1,0x1.ffe058p-1,0x1.ffd7dap-1,0x1.ffcfc6p-1,
0x1.ffc83p-1,0x1.ffc12ep-1,0x1.ffbad2p-1,0x1.ffb52ep-1,0x1.ffb052p-1,0x1.ffac4ep-1,0x1.ffa92ep-1,0x1.ffa6fep-1,
0x1.ffa5c2p-1,0x1.ffa582p-1,0x1.ffa64p-1,0x1.ffa7fep-1,0x1.ffaab6p-1,0x1.ffae64p-1,0x1.ffb3p-1,0x1.ffb87cp-1,
0x1.ffbecap-1,0x1.ffc5dap-1,0x1.ffcd98p-1,0x1.ffd5ecp-1,0x1.ffdebep-1,0x1.ffe7f6p-1,0x1.fff176p-1,0x1.fffb22p-1,
0x1.00026ep+0,0x1.000746p+0,0x1.000c06p+0,0x1.0010a2p+0,0x1.00150cp+0,0x1.001936p+0,0x1.001d16p+0,0x1.00209ep+0,
0x1.0023c8p+0,0x1.002686p+0,0x1.0028d4p+0,0x1.002aacp+0,0x1.002c08p+0,0x1.002ce8p+0,0x1.002d46p+0,0x1.002d28p+0,
0x1.002c8ap+0,0x1.002b7p+0,0x1.0029ep+0,0x1.0027dep+0,0x1.00256ep+0,0x1.00229cp+0,0x1.001f6ep+0,0x1.001becp+0,
0x1.00182p+0,0x1.001414p+0,0x1.000fd6p+0,0x1.000b6cp+0,0x1.0006e6p+0,0x1.00024ep+0,0x1.fffb62p-1,0x1.fff232p-1,
0x1.ffe928p-1,0x1.ffe058p-1,0x1.ffd7dap-1,0x1.ffcfc6p-1,0x1.ffc83p-1,0x1.ffc12ep-1,0x1.ffbad2p-1,0x1.ffb52ep-1,
0x1.ffb052p-1,0x1.ffac4ep-1,0x1.ffa92ep-1,0x1.ffa6fep-1,0x1.ffa5c2p-1,0x1.ffa582p-1,0x1.ffa64p-1,0x1.ffa7fep-1,
0x1.ffaab6p-1,0x1.ffae64p-1,0x1.ffb3p-1,0x1.ffb87cp-1,0x1.ffbecap-1,0x1.ffc5dap-1,0x1.ffcd98p-1,0x1.ffd5ecp-1,
0x1.ffdebep-1,0x1.ffe7f6p-1,0x1.fff176p-1,0x1.fffb22p-1,0x1.00026ep+0,0x1.000742p+0,0x1.000bfap+0,0x1.001084p+0,
0x1.0014dp+0,0x1.0018c4p+0,0x1.001c4ap+0,0x1.001f46p+0,0x1.002198p+0,0x1.00231ep+0,0x1.0023aap+0,0x1.00230cp+0,
0x1.00210ap+0,0x1.001d6p+0,0x1.0017bep+0,0x1.000fcap+0,0x1.00051ap+0,0x1.ffee6cp-1,0x1.ffcb2ep-1,0x1.ff9f44p-1,
0x1.ff6954p-1,0x1.ff27dep-1,0x1.fed932p-1,0x1.fe7b76p-1,0x1.fe0c98p-1,0x1.fd8a56p-1,0x1.fcf236p-1,0x1.fc4182p-1,
0x1.fb7544p-1,0x1.fa8a44p-1,0x1.f97d04p-1,0x1.f849c4p-1,0x1.f6ec74p-1,0x1.f560bep-1,0x1.f3a2p-1,0x1.f1ab4ep-1,
0x1.ef777ep-1,0x1.ed0126p-1,0x1.ea42a6p-1,0x1.e73636p-1,0x1.e3d5f4p-1,0x1.e01bf4p-1,0x1.dc0258p-1,0x1.d7836p-1,
0x1.d29984p-1,0x1.cd3f98p-1,0x1.c770d6p-1,0x1.c1290ap-1,0x1.ba64a4p-1,0x1.b320d6p-1,0x1.ab5bacp-1,0x1.a31424p-1,
0x1.9a4a42p-1,0x1.90ff22p-1,0x1.873504p-1,0x1.7cef56p-1,0x1.7232b8p-1,0x1.6704fep-1,0x1.5b6d2ep-1,0x1.4f7374p-1,
0x1.432116p-1,0x1.368062p-1,0x1.299c9cp-1,0x1.1c81e4p-1,0x1.0f3d1p-1,0x1.01db98p-1,0x1.e8d6d4p-2,0x1.cdf596p-2,
0x1.b3305p-2,0x1.98a3dcp-2,0x1.7e6cc6p-2,0x1.64a6fp-2,0x1.4b6d3ap-2,0x1.32d936p-2,0x1.1b02ccp-2,0x1.03fff8p-2,
0x1.dbc902p-3,0x1.b1837ep-3,0x1.894cc4p-3,0x1.633cacp-3,0x1.3f653cp-3,0x1.1dd2ap-3,0x1.fd1648p-4,0x1.c31ebap-4,
0x1.8db4bep-4,0x1.5cc424p-4,0x1.302f4cp-4,0x1.07d016p-4,0x1.c6f20ep-5,0x1.85ecfap-5,0x1.4c1fc8p-5,0x1.1911f2p-5,
0x1.d88c04p-6,0x1.8a77c6p-6,0x1.46e60ap-6,0x1.0cd8a6p-6,0x1.b6afap-7,0x1.62ea0ep-7,0x1.1c9b04p-7,0x1.c4304p-8,
0x1.63a9eap-8,0x1.14c9dp-8,0x1.a9f0aap-9,0x1.43bfc6p-9,0x1.e5afeep-10,0x1.671cc8p-10,0x1.0560b8p-10,0x1.75efcap-11,
0x1.065e1cp-11,0x1.6844aep-12,0x1.e2a298p-13,0x1.3a32dcp-13,0x1.8b9d4p-14,0x1.de7596p-15,0x1.133d32p-15,0x1.28e7e6p-16,
0x1.25353ep-17,0x1.fae8d8p-19,0x1.58461cp-20,0x1.a2ce24p-23};
static const int lim_1_5[56]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,21,23,25,27,29,31,33,35,38,41,44,47,50,54,58,62,66,71,76,81,87,93,100,107,114,122,131,140,149,160,171,183,196,209,224,240,};
static const float win_1_6[840]={
0x1.2828b2p-24,0x1.f12d68p-23,0x1.0ed6e2p-21,0x1.f3b782p-21,0x1.a3ac82p-20,0x1.4b2acap-19,0x1.f38b3ap-19,0x1.6be168p-18,
0x1.01c58ap-17,0x1.64e5ep-17,0x1.e4a058p-17,0x1.4393p-16,0x1.a9d22p-16,0x1.14981cp-15,0x1.633544p-15,0x1.c37414p-15,
0x1.1c328ap-14,0x1.62bf14p-14,0x1.b751ap-14,0x1.0e0bd8p-13,0x1.49bf74p-13,0x1.901ce4p-13,0x1.e2a244p-13,0x1.217a7cp-12,
0x1.597214p-12,0x1.9a3594p-12,0x1.e4d9fep-12,0x1.1d4672p-11,0x1.4e4ac4p-11,0x1.862b12p-11,0x1.c5a674p-11,0x1.06c548p-10,
0x1.2f5a0ep-10,0x1.5d07aap-10,0x1.904c3p-10,0x1.c9ade4p-10,0x1.04ddbp-9,0x1.2885dap-9,0x1.501f44p-9,0x1.7bfe18p-9,
0x1.ac7ad2p-9,0x1.e1f252p-9,0x1.0e62ep-8,0x1.2ead4ap-8,0x1.520d3cp-8,0x1.78b99ep-8,0x1.a2eb56p-8,0x1.d0dd3cp-8,
0x1.0166p-7,0x1.1c7b08p-7,0x1.39cdbep-7,0x1.597efp-7,0x1.7bb014p-7,0x1.a0834p-7,0x1.c81b0ep-7,0x1.f29a84p-7,
0x1.10127cp-6,0x1.286fp-6,0x1.4274ap-6,0x1.5e3532p-6,0x1.7bc274p-6,0x1.9b2ep-6,0x1.bc893cp-6,0x1.dfe544p-6,
0x1.02a96ap-5,0x1.16711cp-5,0x1.2b519ep-5,0x1.415286p-5,0x1.587b12p-5,0x1.70d22p-5,0x1.8a5e1ep-5,0x1.a525p-5,
0x1.c12c38p-5,0x1.de78aep-5,0x1.fd0eaap-5,0x1.0e78eap-4,0x1.1f1292p-4,0x1.30557p-4,0x1.424244p-4,0x1.54d968p-4,
0x1.681ad2p-4,0x1.7c0604p-4,0x1.909a14p-4,0x1.a5d5a2p-4,0x1.bbb6dap-4,0x1.d23b6cp-4,0x1.e9609p-4,0x1.00917ep-3,
0x1.0cbf7ap-3,0x1.193818p-3,0x1.25f8fep-3,0x1.32ff8ap-3,0x1.4048e8p-3,0x1.4dd1fep-3,0x1.5b977ep-3,0x1.6995dep-3,
0x1.77c95ap-3,0x1.862ep-3,0x1.94bfa8p-3,0x1.a379fap-3,0x1.b25874p-3,0x1.c1566cp-3,0x1.d06f14p-3,0x1.df9d7cp-3,
0x1.eedc9ap-3,0x1.fe274ap-3,0x1.06bc2cp-2,0x1.0e6542p-2,0x1.160c4p-2,0x1.1dae7ep-2,0x1.254956p-2,0x1.2cda28p-2,
0x1.345e52p-2,0x1.3bd346p-2,0x1.433676p-2,0x1.4a856cp-2,0x1.51bdbep-2,0x1.58dd12p-2,0x1.5fe12cp-2,0x1.66c7dcp-2,
0x1.6d8f1cp-2,0x1.7434f4p-2,0x1.7ab792p-2,0x1.81154p-2,0x1.874c6ap-2,0x1.8d5b9cp-2,0x1.93418cp-2,0x1.98fd1p-2,
0x1.9e8d24p-2,0x1.a3f0eep-2,0x1.a927b2p-2,0x1.ae30e6p-2,0x1.b30c1ep-2,0x1.b7b91ap-2,0x1.bc37bcp-2,0x1.c0881p-2,
0x1.c4aa44p-2,0x1.c89eaap-2,0x1.cc65b8p-2,0x1.d00006p-2,0x1.d36e4cp-2,0x1.d6b162p-2,0x1.d9ca3ap-2,0x1.dcb9e6p-2,
0x1.df819p-2,0x1.e2227ap-2,0x1.e49dfep-2,0x1.e6f588p-2,0x1.e92a9ap-2,0x1.eb3ec2p-2,0x1.ed33a2p-2,0x1.ef0ae6p-2,
0x1.f0c646p-2,0x1.f26786p-2,0x1.f3f06cp-2,0x1.f562c8p-2,0x1.f6c06ep-2,0x1.f80b38p-2,0x1.f944fap-2,0x1.fa6f92p-2,
0x1.fb8cd4p-2,0x1.fc9e98p-2,0x1.fda6bp-2,0x1.fea6ecp-2,0x1.ffa116p-2,0x1.004b7ap-1,0x1.00c52p-1,0x1.013e5ap-1,
0x1.01b7fep-1,0x1.0232e2p-1,0x1.02afd6p-1,0x1.032fa4p-1,0x1.03b312p-1,0x1.043ae2p-1,0x1.04c7d2p-1,0x1.055a9ap-1,
0x1.05f3ecp-1,0x1.06947ap-1,0x1.073ce8p-1,0x1.07eddap-1,0x1.08a7f2p-1,0x1.096bc4p-1,0x1.0a39e4p-1,0x1.0b12dep-1,
0x1.0bf73cp-1,0x1.0ce77ap-1,0x1.0de414p-1,0x1.0eed8p-1,0x1.100428p-1,0x1.112874p-1,0x1.125ac2p-1,0x1.139b6ap-1,
0x1.14eabep-1,0x1.164904p-1,0x1.17b68p-1,0x1.193366p-1,0x1.1abfecp-1,0x1.1c5c36p-1,0x1.1e0864p-1,0x1.1fc48ep-1,
0x1.2190cp-1,0x1.236cfep-1,0x1.255946p-1,0x1.275588p-1,0x1.2961aep-1,0x1.2b7d98p-1,0x1.2da91cp-1,0x1.2fe408p-1,
0x1.322e1ep-1,0x1.34871cp-1,0x1.36eeb2p-1,0x1.39648cp-1,0x1.3be848p-1,0x1.3e7982p-1,0x1.4117c8p-1,0x1.43c2a4p-1,
0x1.467998p-1,0x1.493c1ep-1,0x1.4c09acp-1,0x1.4ee1acp-1,0x1.51c38ap-1,0x1.54aea4p-1,0x1.57a258p-1,0x1.5a9e02p-1,
0x1.5da0f2p-1,0x1.60aa7cp-1,0x1.63b9eep-1,0x1.66ce92p-1,0x1.69e7b2p-1,0x1.6d0494p-1,0x1.70248p-1,0x1.7346bcp-1,
0x1.766a8ep-1,0x1.798f3cp-1,0x1.7cb40cp-1,0x1.7fd848p-1,0x1.82fb3cp-1,0x1.861c32p-1,0x1.893a78p-1,0x1.8c5564p-1,
0x1.8f6c4ap-1,0x1.927e84p-1,0x1.958b6ep-1,0x1.98926cp-1,0x1.9b92e6p-1,0x1.9e8c44p-1,0x1.a17dfcp-1,0x1.a46782p-1,
0x1.a74852p-1,0x1.aa1feep-1,0x1.acedep-1,0x1.afb1b6p-1,0x1.b26b04p-1,0x1.b51962p-1,0x1.b7bc76p-1,0x1.ba53e2p-1,
0x1.bcdf58p-1,0x1.bf5e8ap-1,0x1.c1d13p-1,0x1.c4371p-1,0x1.c68feap-1,0x1.c8db9p-1,0x1.cb19d2p-1,0x1.cd4a8ap-1,
0x1.cf6d94p-1,0x1.d182d8p-1,0x1.d38a3ep-1,0x1.d583b4p-1,0x1.d76f32p-1,0x1.d94caep-1,0x1.db1c2ap-1,0x1.dcdda8p-1,
0x1.de9132p-1,0x1.e036d4p-1,0x1.e1cea4p-1,0x1.e358b4p-1,0x1.e4d52p-1,0x1.e6440ap-1,0x1.e7a59p-1,0x1.e8f9dep-1,
0x1.ea411ap-1,0x1.eb7b74p-1,0x1.eca91ep-1,0x1.edca4cp-1,0x1.eedf36p-1,0x1.efe818p-1,0x1.f0e52ep-1,0x1.f1d6b8p-1,
0x1.f2bcfap-1,0x1.f39836p-1,0x1.f468b6p-1,0x1.f52ecp-1,0x1.f5eaap-1,0x1.f69cap-1,0x1.f7450ep-1,0x1.f7e436p-1,
0x1.f87a6ap-1,0x1.f907f6p-1,0x1.f98d2cp-1,0x1.fa0a5ap-1,0x1.fa7fd2p-1,0x1.faede2p-1,0x1.fb54dap-1,0x1.fbb50ap-1,
0x1.fc0ebcp-1,0x1.fc6242p-1,0x1.fcafe6p-1,0x1.fcf7f4p-1,0x1.fd3ab2p-1,0x1.fd786cp-1,0x1.fdb168p-1,0x1.fde5eap-1,
0x1.fe1634p-1,0x1.fe4288p-1,0x1.fe6b24p-1,0x1.fe9048p-1,0x1.feb22cp-1,0x1.fed10ap-1,0x1.feed16p-1,0x1.ff0688p-1,
0x1.ff1d92p-1,0x1.ff326p-1,0x1.ff4522p-1,0x1.ff5604p-1,0x1.ff652ep-1,0x1.ff72c8p-1,0x1.ff7ef4p-1,0x1.ff89d6p-1,
0x1.ff939p-1,0x1.ff9c3ep-1,0x1.ffa3fep-1,0x1.ffaae8p-1,0x1.ffb118p-1,0x1.ffb6ap-1,0x1.ffbb98p-1,0x1.ffc012p-1,
0x1.ffc41ep-1,0x1.ffc7cep-1,0x1.ffcb3p-1,0x1.ffce4ep-1,0x1.ffd138p-1,0x1.ffd3f4p-1,0x1.ffd68ep-1,0x1.ffd90ep-1,
0x1.ffdb78p-1,0x1.ffddd2p-1,0x1.ffe024p-1,0x1.ffe27p-1,0x1.ffe4bap-1,0x1.ffe704p-1,0x1.ffe95p-1,0x1.ffebap-1,
0x1.ffedf6p-1,0x1.fff05p-1,0x1.fff2aep-1,0x1.fff514p-1,0x1.fff77cp-1,0x1.fff9e8p-1,0x1.fffc58p-1,0x1.fffec8p-1,
0x1.00009cp+0,0x1.0001d2p+0,0x1.000308p+0,0x1.00043cp+0,0x1.00056cp+0,0x1.000698p+0,0x1.0007cp+0,0x1.0008e2p+0,
0x1.0009fcp+0,0x1.000b1p+0,0x1.000c1ap+0,0x1.000d1cp+0,0x1.000e14p+0,0x1.000f02p+0,0x1.000fe4p+0,0x1.0010bap+0,
0x1.001184p+0,0x1.001242p+0,0x1.0012f2p+0,0x1.001394p+0,0x1.001426p+0,0x1.0014acp+0,0x1.001522p+0,0x1.001588p+0,
0x1.0015ep+0,0x1.001628p+0,0x1.00165ep+0,0x1.001686p+0,0x1.00169ep+0,0x1.0016a6p+0,0x1.00169ep+0,0x1.001686p+0,
0x1.00166p+0,0x1.001628p+0,0x1.0015e2p+0,0x1.00158cp+0,0x1.001528p+0,0x1.0014b6p+0,0x1.001434p+0,0x1.0013a6p+0,
0x1.00130ap+0,0x1.001262p+0,0x1.0011aep+0,0x1.0010eep+0,0x1.001022p+0,0x1.000f4ap+0,0x1.000e6ap+0,0x1.000d8p+0,
0x1.000c8ep+0,0x1.000b92p+0,0x1.000a8ep+0,0x1.000986p+0,0x1.000876p+0,0x1.00076p+0,0x1.000646p+0,0x1.000528p+0,
0x1.000406p+0,0x1.0002e2p+0,0x1.0001bcp+0,0x1.000094p+0,0x1.fffed8p-1,0x1.fffc8ap-1,0x1.fffa3ep-1,0x1.fff7f6p-1,
0x1.fff5b2p-1,0x1.fff376p-1,0x1.fff142p-1,0x1.ffef16p-1,0x1.ffecf6p-1,0x1.ffeae4p-1,0x1.ffe8dep-1,0x1.ffe6e8p-1,
0x1.ffe502p-1,0x1.ffe32ep-1,0x1.ffe16cp-1,0x1.ffdfcp-1,0x1.ffde28p-1,0x1.ffdca6p-1,0x1.ffdb3ep-1,0x1.ffd9ecp-1,
0x1.ffd8b6p-1,0x1.ffd79ap-1,0x1.ffd698p-1,0x1.ffd5b4p-1,0x1.ffd4eap-1,0x1.ffd44p-1,0x1.ffd3b4p-1,0x1.ffd346p-1,
0x1.ffd2f6p-1,0x1.ffd2c8p-1,0x1.ffd2b8p-1,0x1.ffd2c6p-1,0x1.ffd2f6p-1,0x1.ffd346p-1,0x1.ffd3b6p-1,0x1.ffd444p-1,
0x1.ffd4f2p-1,0x1.ffd5cp-1,0x1.ffd6acp-1,0x1.ffd7b6p-1,0x1.ffd8dcp-1,0x1.ffda2p-1,0x1.ffdb8p-1,0x1.ffdcfap-1,
0x1.ffde8ep-1,0x1.ffe03ap-1,0x1.ffe2p-1,0x1.ffe3dap-1,0x1.ffe5cap-1,0x1.ffe7cep-1,0x1.ffe9e2p-1,0x1.ffec08p-1,
0x1.ffee3ep-1,0x1.fff08p-1,0x1.fff2cep-1,0x1.fff528p-1,0x1.fff788p-1,0x1.fff9eep-1,0x1.fffc5ap-1,0x1.fffec8p-1,
0x1.00009cp+0,0x1.0001d2p+0,0x1.000308p+0,0x1.00043cp+0,0x1.00056cp+0,0x1.000698p+0,0x1.0007cp+0,0x1.0008e2p+0,
0x1.0009fcp+0,0x1.000b1p+0,0x1.000c1ap+0,0x1.000d1cp+0,0x1.000e14p+0,0x1.000f02p+0,0x1.000fe4p+0,0x1.0010bap+0,
0x1.001184p+0,0x1.001242p+0,0x1.0012f2p+0,0x1.001394p+0,0x1.001426p+0,0x1.0014acp+0,0x1.001522p+0,0x1.001588p+0,
0x1.0015ep+0,0x1.001628p+0,0x1.00165ep+0,0x1.001686p+0,0x1.00169ep+0,0x1.0016a6p+0,0x1.00169ep+0,0x1.001686p+0,
0x1.00166p+0,0x1.001628p+0,0x1.0015e2p+0,0x1.00158cp+0,0x1.001528p+0,0x1.0014b6p+0,0x1.001434p+0,0x1.0013a6p+0,
0x1.00130ap+0,0x1.001262p+0,0x1.0011aep+0,0x1.0010eep+0,0x1.001022p+0,0x1.000f4ap+0,0x1.000e6ap+0,0x1.000d8p+0,
0x1.000c8ep+0,0x1.000b92p+0,0x1.000a8ep+0,0x1.000986p+0,0x1.000876p+0,0x1.00076p+0,0x1.000646p+0,0x1.000528p+0,
0x1.000406p+0,0x1.0002e2p+0,0x1.0001bcp+0,0x1.000094p+0,0x1.fffed8p-1,0x1.fffc8ap-1,0x1.fffa3ep-1,0x1.fff7f6p-1,
0x1.fff5b2p-1,0x1.fff376p-1,0x1.fff142p-1,0x1.ffef16p-1,0x1.ffecf6p-1,0x1.ffeae4p-1,0x1.ffe8dep-1,0x1.ffe6e8p-1,
0x1.ffe502p-1,0x1.ffe32ep-1,0x1.ffe16cp-1,0x1.ffdfcp-1,0x1.ffde28p-1,0x1.ffdca6p-1,0x1.ffdb3ep-1,0x1.ffd9ecp-1,
0x1.ffd8b6p-1,0x1.ffd79ap-1,0x1.ffd698p-1,0x1.ffd5b4p-1,0x1.ffd4eap-1,0x1.ffd44p-1,0x1.ffd3b4p-1,0x1.ffd346p-1,
0x1.ffd2f6p-1,0x1.ffd2c8p-1,0x1.ffd2b8p-1,0x1.ffd2c6p-1,0x1.ffd2f6p-1,0x1.ffd346p-1,0x1.ffd3b6p-1,0x1.ffd444p-1,
0x1.ffd4f2p-1,0x1.ffd5cp-1,0x1.ffd6acp-1,0x1.ffd7b6p-1,0x1.ffd8dcp-1,0x1.ffda2p-1,0x1.ffdb8p-1,0x1.ffdcfap-1,
0x1.ffde8ep-1,0x1.ffe03ap-1,0x1.ffe2p-1,0x1.ffe3dap-1,0x1.ffe5cap-1,0x1.ffe7cep-1,0x1.ffe9e2p-1,0x1.ffec08p-1,
0x1.ffee3ep-1,0x1.fff08p-1,0x1.fff2cep-1,0x1.fff528p-1,0x1.fff788p-1,0x1.fff9eep-1,0x1.fffc5ap-1,0x1.fffec8p-1,
0x1.00009cp+0,0x1.0001d2p+0,0x1.000306p+0,0x1.000436p+0,0x1.000562p+0,0x1.000688p+0,0x1.0007a8p+0,0x1.0008bep+0,
0x1.0009c8p+0,0x1.000ac6p+0,0x1.000bb6p+0,0x1.000c94p+0,0x1.000d5ep+0,0x1.000e14p+0,0x1.000ebp+0,0x1.000f2ep+0,
0x1.000f8ep+0,0x1.000fc8p+0,0x1.000fdcp+0,0x1.000fcp+0,0x1.000f72p+0,0x1.000eecp+0,0x1.000e26p+0,0x1.000d1cp+0,
0x1.000bc2p+0,0x1.000a14p+0,0x1.000806p+0,0x1.00058ep+0,0x1.0002a6p+0,0x1.fffe78p-1,0x1.fff692p-1,0x1.ffed7ap-1,
0x1.ffe316p-1,0x1.ffd746p-1,0x1.ffc9ecp-1,0x1.ffbae4p-1,0x1.ffaa08p-1,0x1.ff9732p-1,0x1.ff823ap-1,0x1.ff6af2p-1,
0x1.ff512cp-1,0x1.ff34b8p-1,0x1.ff156p-1,0x1.fef2ecp-1,0x1.fecd28p-1,0x1.fea3dp-1,0x1.fe76aap-1,0x1.fe457p-1,
0x1.fe0fdcp-1,0x1.fdd5a6p-1,0x1.fd967ep-1,0x1.fd5214p-1,0x1.fd0814p-1,0x1.fcb828p-1,0x1.fc61fp-1,0x1.fc050ep-1,
0x1.fba11cp-1,0x1.fb35b4p-1,0x1.fac266p-1,0x1.fa46c4p-1,0x1.f9c258p-1,0x1.f934a6p-1,0x1.f89d32p-1,0x1.f7fb76p-1,
0x1.f74eecp-1,0x1.f69708p-1,0x1.f5d338p-1,0x1.f502e6p-1,0x1.f4257ap-1,0x1.f33a54p-1,0x1.f240dp-1,0x1.f1384ap-1,
0x1.f02016p-1,0x1.eef786p-1,0x1.edbde6p-1,0x1.ec7286p-1,0x1.eb14aap-1,0x1.e9a39ap-1,0x1.e81e9cp-1,0x1.e684f2p-1,
0x1.e4d5dcp-1,0x1.e310ap-1,0x1.e1348p-1,0x1.df40bep-1,0x1.dd34ap-1,0x1.db0f7p-1,0x1.d8d076p-1,0x1.d67704p-1,
0x1.d4027p-1,0x1.d1721p-1,0x1.cec548p-1,0x1.cbfb8p-1,0x1.c91426p-1,0x1.c60eb8p-1,0x1.c2eab6p-1,0x1.bfa7b2p-1,
0x1.bc4544p-1,0x1.b8c314p-1,0x1.b520d8p-1,0x1.b15e5p-1,0x1.ad7b4ep-1,0x1.a977b2p-1,0x1.a5537p-1,0x1.a10e86p-1,
0x1.9ca906p-1,0x1.982318p-1,0x1.937cf2p-1,0x1.8eb6dap-1,0x1.89d12cp-1,0x1.84cc58p-1,0x1.7fa8ep-1,0x1.7a675ap-1,
0x1.75086ap-1,0x1.6f8ccep-1,0x1.69f552p-1,0x1.6442dcp-1,0x1.5e765ap-1,0x1.5890d8p-1,0x1.529368p-1,0x1.4c7f36p-1,
0x1.46557cp-1,0x1.401784p-1,0x1.39c6a8p-1,0x1.33645p-1,0x1.2cf1f2p-1,0x1.267114p-1,0x1.1fe346p-1,0x1.194a2p-1,
0x1.12a74cp-1,0x1.0bfc76p-1,0x1.054b56p-1,0x1.fd2b52p-2,0x1.efba68p-2,0x1.e2477ep-2,0x1.d4d62cp-2,0x1.c76a0cp-2,
0x1.ba06bcp-2,0x1.acafd6p-2,0x1.9f68f6p-2,0x1.9235a8p-2,0x1.851978p-2,0x1.7817e2p-2,0x1.6b3454p-2,0x1.5e722ap-2,
0x1.51d4aap-2,0x1.455f0ap-2,0x1.391464p-2,0x1.2cf7bp-2,0x1.210bd4p-2,0x1.15538ep-2,0x1.09d17ap-2,0x1.fd1026p-3,
0x1.e6f356p-3,0x1.d150dcp-3,0x1.bc2cbcp-3,0x1.a78aa2p-3,0x1.936de4p-3,0x1.7fd97cp-3,0x1.6cd00ap-3,0x1.5a53dp-3,
0x1.4866b2p-3,0x1.370a36p-3,0x1.263f8p-3,0x1.16076p-3,0x1.06623ep-3,0x1.eea05ep-4,0x1.d1a1d6p-4,0x1.b5c7aap-4,
0x1.9b0ff6p-4,0x1.817834p-4,0x1.68fd4p-4,0x1.519b68p-4,0x1.3b4e66p-4,0x1.261178p-4,0x1.11df5cp-4,0x1.fd64c4p-5,
0x1.d908e4p-5,0x1.b69e2ap-5,0x1.9617p-5,0x1.77653ep-5,0x1.5a7a3ap-5,0x1.3f46e2p-5,0x1.25bbc8p-5,0x1.0dc936p-5,
0x1.eebe96p-6,0x1.c4dbfcp-6,0x1.9dca7p-6,0x1.7969cap-6,0x1.5799fep-6,0x1.383b42p-6,0x1.1b2e24p-6,0x1.0053a2p-6,
0x1.cf1a9p-7,0x1.a17a84p-7,0x1.778cdep-7,0x1.5118ep-7,0x1.2de776p-7,0x1.0dc34ep-7,0x1.e0f1d6p-8,0x1.abad7p-8,
0x1.7b5a38p-8,0x1.4f9cfcp-8,0x1.281ea2p-8,0x1.048c32p-8,0x1.c92da8p-9,0x1.8fe7ap-9,0x1.5cb90cp-9,0x1.2f1ccap-9,
0x1.0695aep-9,0x1.c55cacp-10,0x1.85f20cp-10,0x1.4e1ecep-10,0x1.1d24ap-10,0x1.e4a614p-11,0x1.9a0dcep-11,0x1.5953acp-11,
0x1.21634ap-11,0x1.e27efp-12,0x1.90020cp-12,0x1.49ab1cp-12,0x1.0dfc7ap-12,0x1.b73a7cp-13,0x1.62adbap-13,0x1.1c2598p-13,
0x1.c360e4p-14,0x1.632728p-14,0x1.148dd4p-14,0x1.a9c34ap-15,0x1.43887p-15,0x1.e4918cp-16,0x1.64dbb6p-16,0x1.01beb6p-16,
0x1.6bd87ep-17,0x1.f37ffep-18,0x1.4b2408p-18,0x1.a3a4d8p-19,0x1.f3af86p-20,0x1.0ed33ap-20,0x1.f127fep-22,0x1.2825f4p-23};
static const int lim_1_6[59]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,19,21,23,25,27,29,31,34,37,40,44,48,52,56,61,66,71,77,83,90,98,106,115,124,135,146,158,171,185,200,217,235,254,275,298,323,349,378,409,443,480,};
static const float win_2_0[106]={
0x1.82bdfep-9,0x1.d63f6cp-8,0x1.c3334p-7,0x1.7a64f2p-6,0x1.2206c8p-5,0x1.a063fep-5,0x1.1c8c3p-4,0x1.7653b6p-4,
0x1.dd9cc2p-4,0x1.291c52p-3,0x1.69e78cp-3,0x1.b0d492p-3,0x1.fd7a66p-3,0x1.27a142p-2,0x1.52c37ep-2,0x1.7fcf62p-2,
0x1.ae653ap-2,0x1.de1c52p-2,0x1.07434ep-1,0x1.1f9876p-1,0x1.37d24ep-1,0x1.4fb41cp-1,0x1.670618p-1,0x1.7d903p-1,
0x1.93220ep-1,0x1.a789e2p-1,0x1.baa18ap-1,0x1.cc46c4p-1,0x1.dc5e6p-1,0x1.eacd9cp-1,0x1.f78676p-1,0x1.014p+0,
0x1.05d9cp+0,0x1.09935ep+0,0x1.0c70eap+0,0x1.0e7ad6p+0,0x1.0fbe0ep+0,0x1.1049c8p+0,0x1.1031cap+0,0x1.0f8cfcp+0,
0x1.0e7296p+0,0x1.0cfa58p+0,0x1.0b3eap+0,0x1.095692p+0,0x1.075ac4p+0,0x1.056482p+0,0x1.0395fp+0,0x1.01dcbep+0,
0x1.0070e2p+0,0x1.fe9f5cp-1,0x1.fcebap-1,0x1.fbbdecp-1,0x1.fb0becp-1,0x1.faca08p-1,0x1.faeb14p-1,0x1.fb611ep-1,
0x1.fc1d8ap-1,0x1.fd115ep-1,0x1.fe2d46p-1,0x1.ff619ep-1,0x1.004f4ap+0,0x1.00ea32p+0,0x1.01797ap+0,0x1.01f508p+0,
0x1.0254d4p+0,0x1.0290fcp+0,0x1.02a1d8p+0,0x1.02803cp+0,0x1.02259cp+0,0x1.018c92p+0,0x1.00b0ccp+0,0x1.ff1e9ep-1,
0x1.fc4d66p-1,0x1.f8ed7ep-1,0x1.f48c78p-1,0x1.ef554p-1,0x1.e906c4p-1,0x1.e17ac8p-1,0x1.d88e1ep-1,0x1.ce228cp-1,
0x1.c226dap-1,0x1.b48d76p-1,0x1.a550b2p-1,0x1.94772cp-1,0x1.821044p-1,0x1.6e36p-1,0x1.590e42p-1,0x1.42c5b8p-1,
0x1.2b8f74p-1,0x1.13a8f8p-1,0x1.f69d2p-2,0x1.c583dcp-2,0x1.9492bep-2,0x1.645b4p-2,0x1.35730ep-2,0x1.086cc6p-2,
0x1.bbae7ep-3,0x1.6c626ep-3,0x1.23ccd8p-3,0x1.c53b3cp-4,0x1.52bcdp-4,0x1.e1f6bp-5,0x1.4126d4p-5,0x1.86f84ep-6,
0x1.a0136p-7,0x1.5f0dbcp-8};
static const int lim_2_0[61]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,};
static const float win_2_1[212]={
0x1.217088p-9,0x1.f3673ap-9,0x1.83ae0ap-8,0x1.194494p-7,0x1.8526ep-7,0x1.036aa4p-6,0x1.4fbd1cp-6,0x1.a827a6p-6,
0x1.067c16p-5,0x1.3f2c8cp-5,0x1.7e5aeep-5,0x1.c41332p-5,0x1.08352ep-4,0x1.31baep-4,0x1.5e9e2p-4,0x1.8ee33ap-4,
0x1.c288a6p-4,0x1.f9867ep-4,0x1.19eb1ap-3,0x1.38b5c4p-3,0x1.591d88p-3,0x1.7b1218p-3,0x1.9e895ap-3,0x1.c37b7cp-3,
0x1.e9d0e2p-3,0x1.08bb16p-2,0x1.1d2eb8p-2,0x1.323722p-2,0x1.47c992p-2,0x1.5ddbc2p-2,0x1.74634cp-2,0x1.8b5404p-2,
0x1.a2a078p-2,0x1.ba3c68p-2,0x1.d219eap-2,0x1.ea2a32p-2,0x1.0130b8p-1,0x1.0d57dcp-1,0x1.19837cp-1,0x1.25abdep-1,
0x1.31c99ep-1,0x1.3dd598p-1,0x1.49c76ep-1,0x1.559824p-1,0x1.61424ap-1,0x1.6cbd12p-1,0x1.7802cep-1,0x1.830e1p-1,
0x1.8dd7cap-1,0x1.98598ap-1,0x1.a28e2ap-1,0x1.ac70a6p-1,0x1.b5fd3p-1,0x1.bf2e64p-1,0x1.c80168p-1,0x1.d0732ep-1,
0x1.d87fa2p-1,0x1.e02284p-1,0x1.e75a38p-1,0x1.ee259ap-1,0x1.f4824ap-1,0x1.fa6ecp-1,0x1.ffebfp-1,0x1.027bcp+0,
0x1.04c85cp+0,0x1.06dd52p+0,0x1.08ba1cp+0,0x1.0a5efep+0,0x1.0bcdc2p+0,0x1.0d06d8p+0,0x1.0e0b7ep+0,0x1.0eddd2p+0,
0x1.0f7f2ap+0,0x1.0ff15cp+0,0x1.1036eep+0,0x1.105248p+0,0x1.1045e2p+0,0x1.101512p+0,0x1.0fc264p+0,0x1.0f502cp+0,
0x1.0ec2bap+0,0x1.0e1c5ap+0,0x1.0d5f98p+0,0x1.0c9104p+0,0x1.0bb2e8p+0,0x1.0ac79cp+0,0x1.09d356p+0,0x1.08d874p+0,
0x1.07da1ep+0,0x1.06dbd2p+0,0x1.05e06ap+0,0x1.04eac6p+0,0x1.04103ep+0,0x1.032034p+0,0x1.0243b4p+0,0x1.017ab4p+0,
0x1.00c4c8p+0,0x1.0021bap+0,0x1.ff2264p-1,0x1.fe2556p-1,0x1.fd4bb2p-1,0x1.fc93f2p-1,0x1.fbfd4ep-1,0x1.fb864p-1,
0x1.fb2d72p-1,0x1.faf16ap-1,0x1.fad0bap-1,0x1.fac984p-1,0x1.fada4ep-1,0x1.fb0128p-1,0x1.fb3c72p-1,0x1.fb8a2cp-1,
0x1.fbe8aap-1,0x1.fc55ep-1,0x1.fcd016p-1,0x1.fd552ap-1,0x1.fde366p-1,0x1.fe78aap-1,0x1.ff1322p-1,0x1.ffb0a2p-1,
0x1.0027b4p+0,0x1.0076a6p+0,0x1.00c44p+0,0x1.010f6cp+0,0x1.015734p+0,0x1.019a84p+0,0x1.01d872p+0,0x1.020fe2p+0,
0x1.023feep+0,0x1.02678p+0,0x1.0285bap+0,0x1.02998ap+0,0x1.02a21ap+0,0x1.029e6cp+0,0x1.028dcp+0,0x1.026f26p+0,
0x1.0241eep+0,0x1.020566p+0,0x1.01b8fap+0,0x1.015bfep+0,0x1.00ee32p+0,0x1.006efep+0,0x1.ffbc96p-1,0x1.fe779ep-1,
0x1.fd0ef4p-1,0x1.fb82c2p-1,0x1.f9d2e4p-1,0x1.f80004p-1,0x1.f5b444p-1,0x1.f35692p-1,0x1.f0bb8p-1,0x1.eddd6ep-1,
0x1.eab6cp-1,0x1.e7432p-1,0x1.e37df2p-1,0x1.df617cp-1,0x1.daebd6p-1,0x1.d61834p-1,0x1.d0e24cp-1,0x1.cb4a26p-1,
0x1.c54cc6p-1,0x1.bee73cp-1,0x1.b81ad8p-1,0x1.b0e5b8p-1,0x1.a94704p-1,0x1.a140bp-1,0x1.98d39ap-1,0x1.9001a2p-1,
0x1.86ce2ep-1,0x1.7d3b02p-1,0x1.734d52p-1,0x1.6909e6p-1,0x1.5e758cp-1,0x1.5394ep-1,0x1.486fb2p-1,0x1.3d0c6ap-1,
0x1.317032p-1,0x1.25a46ap-1,0x1.19b064p-1,0x1.0d9a64p-1,0x1.016c88p-1,0x1.ea5a82p-2,0x1.d1cb82p-2,0x1.b93d5cp-2,
0x1.a0c306p-2,0x1.886e8p-2,0x1.704ffap-2,0x1.587b5ep-2,0x1.410534p-2,0x1.29feacp-2,0x1.1379dep-2,0x1.fb0d8p-3,
0x1.d07674p-3,0x1.a746acp-3,0x1.7f9c9p-3,0x1.59942cp-3,0x1.3545fap-3,0x1.12c8bp-3,0x1.e45fp-4,0x1.a7143p-4,
0x1.6dd224p-4,0x1.38b36ap-4,0x1.07d066p-4,0x1.b678bep-5,0x1.660f4p-5,0x1.1e7282p-5,0x1.bf420ep-6,0x1.52fa64p-6,
0x1.ef34f2p-7,0x1.58d046p-7,0x1.c147cp-8,0x1.07af5p-8};
static const int lim_2_1[65]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,36,38,40,42,44,46,48,50,52,54,56,58,60,62,65,68,71,74,77,80,83,86,90,94,98,102,106,110,115,120,};
static const float win_2_2[318]={
0x1.0252b8p-9,0x1.82bdfep-9,0x1.0e4d3ep-8,0x1.6a35c6p-8,0x1.d63f6cp-8,0x1.29c82p-7,0x1.71af86p-7,0x1.c3334p-7,
0x1.0f51cap-6,0x1.42315ep-6,0x1.7a64f2p-6,0x1.b8186ap-6,0x1.fb4d4ep-6,0x1.2206c8p-5,0x1.493fdp-5,0x1.735e7cp-5,
0x1.a063fep-5,0x1.d055dp-5,0x1.019ca6p-4,0x1.1c8c3p-4,0x1.38fa5ap-4,0x1.56e698p-4,0x1.7653b6p-4,0x1.974348p-4,
0x1.b9b0e8p-4,0x1.dd9cc2p-4,0x1.018224p-3,0x1.14f1ccp-3,0x1.291c52p-3,0x1.3e0034p-3,0x1.539a96p-3,0x1.69e78cp-3,
0x1.80e0cep-3,0x1.988566p-3,0x1.b0d492p-3,0x1.c9c73ep-3,0x1.e35598p-3,0x1.fd7a66p-3,0x1.0c18ecp-2,0x1.19bb76p-2,
0x1.27a142p-2,0x1.35c63ep-2,0x1.4427fep-2,0x1.52c37ep-2,0x1.61952ap-2,0x1.709a66p-2,0x1.7fcf62p-2,0x1.8f3012p-2,
0x1.9eb896p-2,0x1.ae653ap-2,0x1.be328p-2,0x1.ce1bc6p-2,0x1.de1c52p-2,0x1.ee311p-2,0x1.fe5624p-2,0x1.07434ep-1,
0x1.0f5efap-1,0x1.177c3p-1,0x1.1f9876p-1,0x1.27b1c6p-1,0x1.2fc5a2p-1,0x1.37d24ep-1,0x1.3fd54cp-1,0x1.47cbe8p-1,
0x1.4fb41cp-1,0x1.578cc8p-1,0x1.5f5396p-1,0x1.670618p-1,0x1.6ea1d6p-1,0x1.7625aap-1,0x1.7d903p-1,0x1.84df2ap-1,
0x1.8c105p-1,0x1.93220ep-1,0x1.9a1298p-1,0x1.a0e05p-1,0x1.a789e2p-1,0x1.ae0e3cp-1,0x1.b46bf4p-1,0x1.baa18ap-1,
0x1.c0ad8cp-1,0x1.c68f98p-1,0x1.cc46c4p-1,0x1.d1d1bep-1,0x1.d72f82p-1,0x1.dc5e6p-1,0x1.e15deap-1,0x1.e62dcp-1,
0x1.eacd9cp-1,0x1.ef3cbcp-1,0x1.f37aa8p-1,0x1.f78676p-1,0x1.fb60aep-1,0x1.ff097ep-1,0x1.014p+0,0x1.02e1cap+0,
0x1.046a2p+0,0x1.05d9cp+0,0x1.0730bcp+0,0x1.086e9p+0,0x1.09935ep+0,0x1.0a9fdap+0,0x1.0b945ap+0,0x1.0c70eap+0,
0x1.0d35e2p+0,0x1.0de3a8p+0,0x1.0e7ad6p+0,0x1.0efc16p+0,0x1.0f6792p+0,0x1.0fbe0ep+0,0x1.0ffff6p+0,0x1.102e4p+0,
0x1.1049c8p+0,0x1.1052e4p+0,0x1.104a9p+0,0x1.1031cap+0,0x1.1009a2p+0,0x1.0fd274p+0,0x1.0f8cfcp+0,0x1.0f3a68p+0,
0x1.0edc1p+0,0x1.0e7296p+0,0x1.0dfe58p+0,0x1.0d8066p+0,0x1.0cfa58p+0,0x1.0c6d0cp+0,0x1.0bd8fp+0,0x1.0b3eap+0,
0x1.0a9f72p+0,0x1.09fc9p+0,0x1.095692p+0,0x1.08ae3p+0,0x1.080494p+0,0x1.075ac4p+0,0x1.06b1a8p+0,0x1.0609fcp+0,
0x1.056482p+0,0x1.04c086p+0,0x1.043d2p+0,0x1.0395fp+0,0x1.02fa28p+0,0x1.02671ep+0,0x1.01dcbep+0,0x1.015b16p+0,
0x1.00e1cap+0,0x1.0070e2p+0,0x1.000862p+0,0x1.ff500ap-1,0x1.fe9f5cp-1,0x1.fdfeaap-1,0x1.fd6d92p-1,0x1.fcebap-1,
0x1.fc7898p-1,0x1.fc1428p-1,0x1.fbbdecp-1,0x1.fb7566p-1,0x1.fb3a3p-1,0x1.fb0becp-1,0x1.faea22p-1,0x1.fad458p-1,
0x1.faca08p-1,0x1.facab8p-1,0x1.fad5e8p-1,0x1.faeb14p-1,0x1.fb09bp-1,0x1.fb3136p-1,0x1.fb611ep-1,0x1.fb98d2p-1,
0x1.fbd7d2p-1,0x1.fc1d8ap-1,0x1.fc696cp-1,0x1.fcbae4p-1,0x1.fd115ep-1,0x1.fd6c5p-1,0x1.fdcb2p-1,0x1.fe2d46p-1,
0x1.fe922p-1,0x1.fef91cp-1,0x1.ff619ep-1,0x1.ffcb0ep-1,0x1.001a7cp+0,0x1.004f4ap+0,0x1.0083b6p+0,0x1.00b774p+0,
0x1.00ea32p+0,0x1.011ba8p+0,0x1.014b84p+0,0x1.01797ap+0,0x1.01a53ep+0,0x1.01ce88p+0,0x1.01f508p+0,0x1.021872p+0,
0x1.02387ap+0,0x1.0254d4p+0,0x1.026d3ap+0,0x1.02816p+0,0x1.0290fcp+0,0x1.029bc8p+0,0x1.02a17ep+0,0x1.02a1d8p+0,
0x1.029c94p+0,0x1.029176p+0,0x1.02803cp+0,0x1.0268a8p+0,0x1.024a8p+0,0x1.02259cp+0,0x1.01f9ccp+0,0x1.01c6d8p+0,
0x1.018c92p+0,0x1.014aep+0,0x1.0101aep+0,0x1.00b0ccp+0,0x1.00581ap+0,0x1.ffef3cp-1,0x1.ff1e9ep-1,0x1.fe3dfap-1,
0x1.fd4d7ap-1,0x1.fc4d66p-1,0x1.fb3d36p-1,0x1.fa1d38p-1,0x1.f8ed7ep-1,0x1.f7a91ap-1,0x1.f60f3p-1,0x1.f48c78p-1,
0x1.f2ebc6p-1,0x1.f12f28p-1,0x1.ef554p-1,0x1.ed5c2ep-1,0x1.eb4274p-1,0x1.e906c4p-1,0x1.e6a81cp-1,0x1.e424bep-1,
0x1.e17ac8p-1,0x1.dea97ap-1,0x1.dbb072p-1,0x1.d88e1ep-1,0x1.d540bep-1,0x1.d1c768p-1,0x1.ce228cp-1,0x1.ca51c4p-1,
0x1.c6538cp-1,0x1.c226dap-1,0x1.bdcc5ap-1,0x1.b9441p-1,0x1.b48d76p-1,0x1.afa7e6p-1,0x1.aa9348p-1,0x1.a550b2p-1,
0x1.9fe03ap-1,0x1.9a4216p-1,0x1.94772cp-1,0x1.8e7fb8p-1,0x1.885d6ap-1,0x1.821044p-1,0x1.7b99d4p-1,0x1.74fbp-1,
0x1.6e36p-1,0x1.674c02p-1,0x1.603e58p-1,0x1.590e42p-1,0x1.51bdfcp-1,0x1.4a4fbap-1,0x1.42c5b8p-1,0x1.3b20acp-1,
0x1.336328p-1,0x1.2b8f74p-1,0x1.23a91ap-1,0x1.1bb102p-1,0x1.13a8f8p-1,0x1.0b9428p-1,0x1.0375ap-1,0x1.f69d2p-2,
0x1.e64348p-2,0x1.d5e3bep-2,0x1.c583dcp-2,0x1.b526fcp-2,0x1.a4d594p-2,0x1.9492bep-2,0x1.8464f2p-2,0x1.745042p-2,
0x1.645b4p-2,0x1.548b72p-2,0x1.44e702p-2,0x1.35730ep-2,0x1.26347p-2,0x1.172ffcp-2,0x1.086cc6p-2,0x1.f3dc78p-3,
0x1.d777cep-3,0x1.bbae7ep-3,0x1.a08f62p-3,0x1.861d9cp-3,0x1.6c626ep-3,0x1.536882p-3,0x1.3b3346p-3,0x1.23ccd8p-3,
0x1.0d37bep-3,0x1.eef7cap-4,0x1.c53b3cp-4,0x1.9d40a6p-4,0x1.771414p-4,0x1.52bcdp-4,0x1.3041dap-4,0x1.0faa02p-4,
0x1.e1f6bp-5,0x1.a875fap-5,0x1.72d9bap-5,0x1.4126d4p-5,0x1.135e8ap-5,0x1.d2fb7p-6,0x1.86f84ep-6,0x1.42976cp-6,
0x1.05afa4p-6,0x1.a0136p-7,0x1.42be9p-7,0x1.e570f2p-8,0x1.5f0dbcp-8,0x1.f64d7ep-9};
static const int lim_2_2[65]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,29,31,33,35,37,39,41,43,45,47,49,52,55,58,61,64,67,70,74,78,82,86,90,95,100,105,110,115,121,127,134,141,148,155,163,171,180,};
static const float win_2_3[424]={
0x1.e4875ap-10,0x1.502d06p-9,0x1.b9669ep-9,0x1.18fa12p-8,0x1.5dd9d6p-8,0x1.abbd68p-8,0x1.0197e8p-7,0x1.32424cp-7,
0x1.682cf4p-7,0x1.a3778ep-7,0x1.e45496p-7,0x1.156486p-6,0x1.3b8b12p-6,0x1.64acb6p-6,0x1.90e4bep-6,0x1.c031eep-6,
0x1.f298bcp-6,0x1.140decp-5,0x1.3066bap-5,0x1.4e5aep-5,0x1.6df178p-5,0x1.8f2a74p-5,0x1.b2077p-5,0x1.d688bcp-5,
0x1.fcb28cp-5,0x1.1245acp-4,0x1.2708c2p-4,0x1.3ca308p-4,0x1.5313cep-4,0x1.6a5da4p-4,0x1.82806cp-4,0x1.9b7c3ap-4,
0x1.b54dfcp-4,0x1.cff81p-4,0x1.eb76e2p-4,0x1.03e5fep-3,0x1.127986p-3,0x1.2176a2p-3,0x1.30dc0cp-3,0x1.40a9b4p-3,
0x1.50dd5p-3,0x1.617662p-3,0x1.7270bcp-3,0x1.83cc32p-3,0x1.958772p-3,0x1.a7a324p-3,0x1.ba1cd6p-3,0x1.ccf0cep-3,
0x1.e01b7ap-3,0x1.f39b2cp-3,0x1.03b70ep-2,0x1.0dc986p-2,0x1.180368p-2,0x1.22635ep-2,0x1.2ce7ecp-2,0x1.378f3ep-2,
0x1.42588cp-2,0x1.4d4288p-2,0x1.584cp-2,0x1.63731ap-2,0x1.6eb70ep-2,0x1.7a1608p-2,0x1.858edep-2,0x1.911f0ep-2,
0x1.9cc578p-2,0x1.a8804ep-2,0x1.b44ec4p-2,0x1.c02e38p-2,0x1.cc1d38p-2,0x1.d81986p-2,0x1.e42206p-2,0x1.f034e6p-2,
0x1.fc50bap-2,0x1.0439aap-1,0x1.0a4d7p-1,0x1.106294p-1,0x1.16788p-1,0x1.1c8e18p-1,0x1.22a276p-1,0x1.28b496p-1,
0x1.2ec378p-1,0x1.34ce8ep-1,0x1.3ad4b8p-1,0x1.40d4dap-1,0x1.46cdccp-1,0x1.4cbed4p-1,0x1.52a744p-1,0x1.5886aep-1,
0x1.5e5bcp-1,0x1.6425bep-1,0x1.69e33cp-1,0x1.6f93a8p-1,0x1.75367ep-1,0x1.7acb5cp-1,0x1.805122p-1,0x1.85c706p-1,
0x1.8b2bdap-1,0x1.907f46p-1,0x1.95c01cp-1,0x1.9aee5p-1,0x1.a0088cp-1,0x1.a50e9ep-1,0x1.a9ffe8p-1,0x1.aedc22p-1,
0x1.b3a264p-1,0x1.b8523cp-1,0x1.bceaeep-1,0x1.c16c2ap-1,0x1.c5d5bp-1,0x1.ca2714p-1,0x1.ce603p-1,0x1.d27ffap-1,
0x1.d68654p-1,0x1.da724p-1,0x1.de43dap-1,0x1.e1fa82p-1,0x1.e59662p-1,0x1.e91744p-1,0x1.ec7d1cp-1,0x1.efc72ap-1,
0x1.f2f59ep-1,0x1.f607dp-1,0x1.f8fe24p-1,0x1.fbd87cp-1,0x1.fe9712p-1,0x1.009cc2p+0,0x1.01dfbp+0,0x1.031434p+0,
0x1.043a6ep+0,0x1.0552c6p+0,0x1.065d48p+0,0x1.0759d8p+0,0x1.084834p+0,0x1.092878p+0,0x1.09faep+0,0x1.0abfb8p+0,
0x1.0b7712p+0,0x1.0c20fap+0,0x1.0cbd8ep+0,0x1.0d4cdcp+0,0x1.0dcf34p+0,0x1.0e44ap+0,0x1.0eadf4p+0,0x1.0f0ab8p+0,
0x1.0f5b4ap+0,0x1.0fa01ap+0,0x1.0fd91ap+0,0x1.1006ccp+0,0x1.10297ap+0,0x1.1041bp+0,0x1.104f4ap+0,0x1.1052cap+0,
0x1.104c86p+0,0x1.103cf4p+0,0x1.10247ap+0,0x1.10038ep+0,0x1.0fda24p+0,0x1.0fa8a4p+0,0x1.0f6f7ap+0,0x1.0f2f4p+0,
0x1.0ee878p+0,0x1.0e9b6ap+0,0x1.0e4838p+0,0x1.0def1cp+0,0x1.0d909ep+0,0x1.0d2d78p+0,0x1.0cc634p+0,0x1.0c5ae8p+0,
0x1.0bebdp+0,0x1.0b792p+0,0x1.0b037p+0,0x1.0a8b46p+0,0x1.0a111ap+0,0x1.09952p+0,0x1.0917aep+0,0x1.089908p+0,
0x1.0819cep+0,0x1.079a64p+0,0x1.071b3ep+0,0x1.069c9cp+0,0x1.061ed4p+0,0x1.05a252p+0,0x1.0527d6p+0,0x1.04ace4p+0,
0x1.04522ep+0,0x1.03d1ecp+0,0x1.035a4cp+0,0x1.02e75p+0,0x1.027906p+0,0x1.020f96p+0,0x1.01ab22p+0,0x1.014b7ap+0,
0x1.00f07ep+0,0x1.009a3ap+0,0x1.0048bcp+0,0x1.fff7dp-1,0x1.ff673ep-1,0x1.fedfb8p-1,0x1.fe6142p-1,0x1.fdebb4p-1,
0x1.fd7edcp-1,0x1.fd1a94p-1,0x1.fcbec4p-1,0x1.fc6b42p-1,0x1.fc1feap-1,0x1.fbdc9cp-1,0x1.fba128p-1,0x1.fb6d4ap-1,
0x1.fb40dcp-1,0x1.fb1bc4p-1,0x1.fafdd4p-1,0x1.fae6c8p-1,0x1.fad66ap-1,0x1.facc92p-1,0x1.fac90ap-1,0x1.facb9p-1,
0x1.fad3fp-1,0x1.fae1fcp-1,0x1.faf57ep-1,0x1.fb0e2ap-1,0x1.fb2bcap-1,0x1.fb4e32p-1,0x1.fb7522p-1,0x1.fba054p-1,
0x1.fbcf8ep-1,0x1.fc02a2p-1,0x1.fc395p-1,0x1.fc7354p-1,0x1.fcb068p-1,0x1.fcf06p-1,0x1.fd32fep-1,0x1.fd77fap-1,
0x1.fdbf12p-1,0x1.fe081ap-1,0x1.fe52d2p-1,0x1.fe9ee8p-1,0x1.feec2p-1,0x1.ff3a46p-1,0x1.ff891ap-1,0x1.ffd84cp-1,
0x1.0013dcp+0,0x1.003b8p+0,0x1.006304p+0,0x1.008a3cp+0,0x1.00b106p+0,0x1.00d74cp+0,0x1.00fcecp+0,0x1.0121bep+0,
0x1.0145ap+0,0x1.01687ap+0,0x1.018a2cp+0,0x1.01aa8ep+0,0x1.01c982p+0,0x1.01e6fp+0,0x1.0202b2p+0,0x1.021ca6p+0,
0x1.0234aap+0,0x1.024aa4p+0,0x1.025e76p+0,0x1.026ffep+0,0x1.027f18p+0,0x1.028bacp+0,0x1.02959ep+0,0x1.029ccap+0,
0x1.02a11p+0,0x1.02a25ap+0,0x1.02a08cp+0,0x1.029b86p+0,0x1.02932cp+0,0x1.02876cp+0,0x1.027828p+0,0x1.026542p+0,
0x1.024eap+0,0x1.02343cp+0,0x1.021602p+0,0x1.01f3d4p+0,0x1.01cd9ap+0,0x1.01a348p+0,0x1.0174d2p+0,0x1.014226p+0,
0x1.010b3cp+0,0x1.00d008p+0,0x1.009076p+0,0x1.004c78p+0,0x1.000418p+0,0x1.ff6eb2p-1,0x1.fecc46p-1,0x1.fe20c8p-1,
0x1.fd6c6p-1,0x1.fcaf44p-1,0x1.fbe94p-1,0x1.fb1a12p-1,0x1.fa420cp-1,0x1.f96198p-1,0x1.f878e8p-1,0x1.f7805cp-1,
0x1.f63fp-1,0x1.f52302p-1,0x1.f3f3a6p-1,0x1.f2b5bep-1,0x1.f1684cp-1,0x1.f00a7cp-1,0x1.ee9b9cp-1,0x1.ed1acep-1,
0x1.eb8782p-1,0x1.e9e122p-1,0x1.e8277cp-1,0x1.e659cp-1,0x1.e4773ap-1,0x1.e27f16p-1,0x1.e070f2p-1,0x1.de4c8ep-1,
0x1.dc11c6p-1,0x1.d9bfeap-1,0x1.d75648p-1,0x1.d4d3fcp-1,0x1.d238eep-1,0x1.cf8574p-1,0x1.ccb98p-1,0x1.c9d484p-1,
0x1.c6d5d4p-1,0x1.c3bd0ap-1,0x1.c08a44p-1,0x1.bd3dd6p-1,0x1.b9d792p-1,0x1.b6575ap-1,0x1.b2bdp-1,0x1.af07e2p-1,
0x1.ab3852p-1,0x1.a74fp-1,0x1.a34c02p-1,0x1.9f2eeep-1,0x1.9af842p-1,0x1.96a86ep-1,0x1.923fap-1,0x1.8dbdcap-1,
0x1.89240ep-1,0x1.847262p-1,0x1.7fa844p-1,0x1.7ac844p-1,0x1.75d0f8p-1,0x1.70c452p-1,0x1.6ba28p-1,0x1.666c36p-1,
0x1.6121eap-1,0x1.5bc43p-1,0x1.5653dp-1,0x1.50d1d8p-1,0x1.4b3f18p-1,0x1.459c8p-1,0x1.3feb12p-1,0x1.3a2a3ep-1,
0x1.345c18p-1,0x1.2e8126p-1,0x1.289b3ep-1,0x1.22ab08p-1,0x1.1cb0fp-1,0x1.16ada8p-1,0x1.10a28p-1,0x1.0a90dp-1,
0x1.047ap-1,0x1.fcbc1p-2,0x1.f07c7cp-2,0x1.e4378ap-2,0x1.d7efdcp-2,0x1.cba77cp-2,0x1.bf605ep-2,0x1.b31c24p-2,
0x1.a6df24p-2,0x1.9aa928p-2,0x1.8e7f66p-2,0x1.8260cp-2,0x1.76511ap-2,0x1.6a5308p-2,0x1.5e68a8p-2,0x1.52948ep-2,
0x1.46d91ap-2,0x1.3b38a8p-2,0x1.2fb4dp-2,0x1.24509ap-2,0x1.190cacp-2,0x1.0defacp-2,0x1.02f3cap-2,0x1.f0474cp-3,
0x1.dafbe2p-3,0x1.c605d8p-3,0x1.b16f4cp-3,0x1.9d37fap-3,0x1.89626ap-3,0x1.75f14ep-3,0x1.62ee42p-3,0x1.505766p-3,
0x1.3e2ec6p-3,0x1.2c7a02p-3,0x1.1b3cb6p-3,0x1.0a7488p-3,0x1.f44ea4p-4,0x1.d4adb2p-4,0x1.b607d8p-4,0x1.9861bep-4,
0x1.7bc006p-4,0x1.6026p-4,0x1.45969ap-4,0x1.2c146ap-4,0x1.13a242p-4,0x1.f88628p-5,0x1.cbf248p-5,0x1.a18bfep-5,
0x1.795666p-5,0x1.535442p-5,0x1.2f8676p-5,0x1.0dec0ap-5,0x1.dd068ep-6,0x1.a29292p-6,0x1.6c7124p-6,0x1.3a92eap-6,
0x1.0ce5d8p-6,0x1.c6a5eep-7,0x1.7b7968p-7,0x1.380578p-7,0x1.f80fd6p-8,0x1.8df092p-8,0x1.2f284p-8,0x1.d8c1dcp-9};
static const int lim_2_3[65]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,26,28,30,32,34,36,38,40,42,45,48,51,54,57,60,63,67,71,75,79,84,89,94,99,105,111,117,124,131,138,146,154,163,172,182,192,203,215,227,240,};
static const float win_2_4[636]={
0x1.c349b4p-10,0x1.217088p-9,0x1.607474p-9,0x1.a6db14p-9,0x1.f3673ap-9,0x1.23e102p-8,0x1.51c09cp-8,0x1.83ae0ap-8,
0x1.b9a07cp-8,0x1.f3f2fap-8,0x1.194494p-7,0x1.3ae15cp-7,0x1.5ed112p-7,0x1.8526ep-7,0x1.ade242p-7,0x1.d92334p-7,
0x1.036aa4p-6,0x1.1b8beap-6,0x1.34fa2ap-6,0x1.4fbd1cp-6,0x1.6bd356p-6,0x1.894f46p-6,0x1.a827a6p-6,0x1.c8615p-6,
0x1.e9fa8p-6,0x1.067c16p-5,0x1.18aa88p-5,0x1.2b90dcp-5,0x1.3f2c8cp-5,0x1.53817ep-5,0x1.689038p-5,0x1.7e5aeep-5,
0x1.94dc52p-5,0x1.ac1acp-5,0x1.c41332p-5,0x1.dcc754p-5,0x1.f637f8p-5,0x1.08352ep-4,0x1.15ac6ep-4,0x1.2383fap-4,
0x1.31baep-4,0x1.405196p-4,0x1.4f4724p-4,0x1.5e9e2p-4,0x1.6e5432p-4,0x1.7e6b86p-4,0x1.8ee33ap-4,0x1.9fbb06p-4,
0x1.b0f12ep-4,0x1.c288a6p-4,0x1.d47e54p-4,0x1.e6d2fp-4,0x1.f9867ep-4,0x1.064cb6p-3,0x1.10043cp-3,0x1.19eb1ap-3,
0x1.240046p-3,0x1.2e43fp-3,0x1.38b5c4p-3,0x1.4355fcp-3,0x1.4e22eap-3,0x1.591d88p-3,0x1.644414p-3,0x1.6f95b2p-3,
0x1.7b1218p-3,0x1.86ba34p-3,0x1.928c36p-3,0x1.9e895ap-3,0x1.aab102p-3,0x1.b70248p-3,0x1.c37b7cp-3,0x1.d01cbap-3,
0x1.dce3cp-3,0x1.e9d0e2p-3,0x1.f6e342p-3,0x1.020d52p-2,0x1.08bb16p-2,0x1.0f7b34p-2,0x1.164c6cp-2,0x1.1d2eb8p-2,
0x1.2421a6p-2,0x1.2b24c6p-2,0x1.323722p-2,0x1.39592ep-2,0x1.408a06p-2,0x1.47c992p-2,0x1.4f174ep-2,0x1.56730ap-2,
0x1.5ddbc2p-2,0x1.6551d4p-2,0x1.6cd478p-2,0x1.74634cp-2,0x1.7bfdbep-2,0x1.83a3bep-2,0x1.8b5404p-2,0x1.930ea6p-2,
0x1.9ad2ecp-2,0x1.a2a078p-2,0x1.aa76b6p-2,0x1.b255ccp-2,0x1.ba3c68p-2,0x1.c22a5ep-2,0x1.ca1f0ap-2,0x1.d219eap-2,
0x1.da1a16p-2,0x1.e21fdap-2,0x1.ea2a32p-2,0x1.f238f8p-2,0x1.fa4b86p-2,0x1.0130b8p-1,0x1.053cccp-1,0x1.094a08p-1,
0x1.0d57dcp-1,0x1.116632p-1,0x1.1574dp-1,0x1.19837cp-1,0x1.1d9192p-1,0x1.219f3p-1,0x1.25abdep-1,0x1.29b75p-1,
0x1.2dc134p-1,0x1.31c99ep-1,0x1.35cfeep-1,0x1.39d414p-1,0x1.3dd598p-1,0x1.41d434p-1,0x1.45cf7ap-1,0x1.49c76ep-1,
0x1.4dbb7ap-1,0x1.51abccp-1,0x1.559824p-1,0x1.598046p-1,0x1.5d63ap-1,0x1.61424ap-1,0x1.651b8ap-1,0x1.68ef3ap-1,
0x1.6cbd12p-1,0x1.708518p-1,0x1.7446f4p-1,0x1.7802cep-1,0x1.7bb80cp-1,0x1.7f669ap-1,0x1.830e1p-1,0x1.86ae64p-1,
0x1.8a46eap-1,0x1.8dd7cap-1,0x1.9160bap-1,0x1.94e148p-1,0x1.98598ap-1,0x1.9bc976p-1,0x1.9f303cp-1,0x1.a28e2ap-1,
0x1.a5e2f2p-1,0x1.a92e7cp-1,0x1.ac70a6p-1,0x1.afa966p-1,0x1.b2d838p-1,0x1.b5fd3p-1,0x1.b917fap-1,0x1.bc2878p-1,
0x1.bf2e64p-1,0x1.c22a1cp-1,0x1.c51b1cp-1,0x1.c80168p-1,0x1.cadcfap-1,0x1.cdadc6p-1,0x1.d0732ep-1,0x1.d32d82p-1,
0x1.d5dc6ap-1,0x1.d87fa2p-1,0x1.db1702p-1,0x1.dda2cap-1,0x1.e02284p-1,0x1.e2965ap-1,0x1.e4fe46p-1,0x1.e75a38p-1,
0x1.e9aa2p-1,0x1.ebee0ep-1,0x1.ee259ap-1,0x1.f050d4p-1,0x1.f26fcp-1,0x1.f4824ap-1,0x1.f6881ep-1,0x1.f881b4p-1,
0x1.fa6ecp-1,0x1.fc4f86p-1,0x1.fe23e4p-1,0x1.ffebfp-1,0x1.00d38ep+0,0x1.01aadcp+0,0x1.027bcp+0,0x1.03463ap+0,
0x1.040a5ap+0,0x1.04c85cp+0,0x1.058024p+0,0x1.0631d2p+0,0x1.06dd52p+0,0x1.07829p+0,0x1.082174p+0,0x1.08ba1cp+0,
0x1.094c7cp+0,0x1.09d8cp+0,0x1.0a5efep+0,0x1.0adf34p+0,0x1.0b596ep+0,0x1.0bcdc2p+0,0x1.0c3bfap+0,0x1.0ca462p+0,
0x1.0d06d8p+0,0x1.0d637cp+0,0x1.0dba62p+0,0x1.0e0b7ep+0,0x1.0e5704p+0,0x1.0e9d48p+0,0x1.0eddd2p+0,0x1.0f19p+0,
0x1.0f4ebp+0,0x1.0f7f2ap+0,0x1.0faa6ap+0,0x1.0fd066p+0,0x1.0ff15cp+0,0x1.100d52p+0,0x1.10246ap+0,0x1.1036eep+0,
0x1.1044aep+0,0x1.104dbap+0,0x1.105248p+0,0x1.105268p+0,0x1.104e38p+0,0x1.1045e2p+0,0x1.10397ap+0,0x1.102926p+0,
0x1.101512p+0,0x1.0ffd3cp+0,0x1.0fe19ep+0,0x1.0fc264p+0,0x1.0f9fa2p+0,0x1.0f7984p+0,0x1.0f502cp+0,0x1.0f23e8p+0,
0x1.0ef4b4p+0,0x1.0ec2bap+0,0x1.0e8df8p+0,0x1.0e5684p+0,0x1.0e1c5ap+0,0x1.0ddfbap+0,0x1.0da0b6p+0,0x1.0d5f98p+0,
0x1.0d1c8ap+0,0x1.0cd7b4p+0,0x1.0c9104p+0,0x1.0c48a8p+0,0x1.0bfe94p+0,0x1.0bb2e8p+0,0x1.0b65b4p+0,0x1.0b174p+0,
0x1.0ac79cp+0,0x1.0a770cp+0,0x1.0a2596p+0,0x1.09d356p+0,0x1.09804ep+0,0x1.092cbp+0,0x1.08d874p+0,0x1.0883dcp+0,
0x1.082f06p+0,0x1.07da1ep+0,0x1.07852ap+0,0x1.07306ap+0,0x1.06dbd2p+0,0x1.068796p+0,0x1.0633b6p+0,0x1.05e06ap+0,
0x1.058dacp+0,0x1.053bdep+0,0x1.04eac6p+0,0x1.049ba4p+0,0x1.04649cp+0,0x1.04103ep+0,0x1.03bdfep+0,0x1.036e02p+0,
0x1.032034p+0,0x1.02d49ap+0,0x1.028b1p+0,0x1.0243b4p+0,0x1.01fe8p+0,0x1.01bb8ap+0,0x1.017ab4p+0,0x1.013cp+0,
0x1.00ff52p+0,0x1.00c4c8p+0,0x1.008c4ep+0,0x1.0055fep+0,0x1.0021bap+0,0x1.ffdf1ap-1,0x1.ff7eb2p-1,0x1.ff2264p-1,
0x1.feca02p-1,0x1.fe75b8p-1,0x1.fe2556p-1,0x1.fdd8f8p-1,0x1.fd9064p-1,0x1.fd4bb2p-1,0x1.fd0aaep-1,0x1.fccd8p-1,
0x1.fc93f2p-1,0x1.fc5e26p-1,0x1.fc2be6p-1,0x1.fbfd4ep-1,0x1.fbd226p-1,0x1.fbaa8ap-1,0x1.fb864p-1,0x1.fb6562p-1,
0x1.fb47bep-1,0x1.fb2d72p-1,0x1.fb1646p-1,0x1.fb0258p-1,0x1.faf16ap-1,0x1.fae39ap-1,0x1.fad8acp-1,0x1.fad0bap-1,
0x1.facb8ap-1,0x1.fac936p-1,0x1.fac984p-1,0x1.facc92p-1,0x1.fad222p-1,0x1.fada4ep-1,0x1.fae4dcp-1,0x1.faf1e2p-1,
0x1.fb0128p-1,0x1.fb12c6p-1,0x1.fb268p-1,0x1.fb3c72p-1,0x1.fb545ep-1,0x1.fb6e5ap-1,0x1.fb8a2cp-1,0x1.fba7eep-1,
0x1.fbc766p-1,0x1.fbe8aap-1,0x1.fc0b7ep-1,0x1.fc2ff8p-1,0x1.fc55ep-1,0x1.fc7d5p-1,0x1.fca604p-1,0x1.fcd016p-1,
0x1.fcfb4ap-1,0x1.fd27bap-1,0x1.fd552ap-1,0x1.fd83b2p-1,0x1.fdb312p-1,0x1.fde366p-1,0x1.fe147p-1,0x1.fe4646p-1,
0x1.fe78aap-1,0x1.feabb6p-1,0x1.fedf2cp-1,0x1.ff1322p-1,0x1.ff475cp-1,0x1.ff7bfp-1,0x1.ffb0a2p-1,0x1.ffe58ep-1,
0x1.000d3ap+0,0x1.0027b4p+0,0x1.00421ap+0,0x1.005c74p+0,0x1.0076a6p+0,0x1.0090bcp+0,0x1.00aa96p+0,0x1.00c44p+0,
0x1.00dd9cp+0,0x1.00f6b4p+0,0x1.010f6cp+0,0x1.0127ccp+0,0x1.013fb4p+0,0x1.015734p+0,0x1.016e2cp+0,0x1.0184a6p+0,
0x1.019a84p+0,0x1.01afd2p+0,0x1.01c472p+0,0x1.01d872p+0,0x1.01ebaep+0,0x1.01fe32p+0,0x1.020fe2p+0,0x1.0220cap+0,
0x1.0230cap+0,0x1.023feep+0,0x1.024e16p+0,0x1.025b52p+0,0x1.02678p+0,0x1.0272bp+0,0x1.027cbep+0,0x1.0285bap+0,
0x1.028d82p+0,0x1.029428p+0,0x1.02998ap+0,0x1.029db6p+0,0x1.02a08cp+0,0x1.02a21ap+0,0x1.02a244p+0,0x1.02a114p+0,
0x1.029e6cp+0,0x1.029a6p+0,0x1.0294ccp+0,0x1.028dcp+0,0x1.02851ep+0,0x1.027af4p+0,0x1.026f26p+0,0x1.0261cp+0,
0x1.0252a8p+0,0x1.0241eep+0,0x1.022f76p+0,0x1.021b54p+0,0x1.020566p+0,0x1.01edbep+0,0x1.01d44p+0,0x1.01b8fap+0,
0x1.019bd2p+0,0x1.017cdcp+0,0x1.015bfep+0,0x1.01394cp+0,0x1.0114aep+0,0x1.00ee32p+0,0x1.00c5bcp+0,0x1.009b5ep+0,
0x1.006efep+0,0x1.0040b8p+0,0x1.001074p+0,0x1.ffbc96p-1,0x1.ff543ep-1,0x1.fee7fcp-1,0x1.fe779ep-1,0x1.fe0356p-1,
0x1.fd8b0ap-1,0x1.fd0ef4p-1,0x1.fc8ee2p-1,0x1.fc0ae6p-1,0x1.fb82c2p-1,0x1.faf6aep-1,0x1.fa66a6p-1,0x1.f9d2e4p-1,
0x1.f93b32p-1,0x1.f89f9ep-1,0x1.f80004p-1,0x1.f75cb8p-1,0x1.f6734ep-1,0x1.f5b444p-1,0x1.f4f0e8p-1,0x1.f4270ep-1,
0x1.f35692p-1,0x1.f27f48p-1,0x1.f1a0fcp-1,0x1.f0bb8p-1,0x1.efce8ap-1,0x1.eedap-1,0x1.eddd6ep-1,0x1.ecd8e6p-1,
0x1.ebcc08p-1,0x1.eab6cp-1,0x1.e998dep-1,0x1.e8727ap-1,0x1.e7432p-1,0x1.e60acep-1,0x1.e4c91ep-1,0x1.e37df2p-1,
0x1.e228eap-1,0x1.e0ca3p-1,0x1.df617cp-1,0x1.ddefp-1,0x1.dc7278p-1,0x1.daebd6p-1,0x1.d95aa2p-1,0x1.d7beecp-1,
0x1.d61834p-1,0x1.d46686p-1,0x1.d2a9cap-1,0x1.d0e24cp-1,0x1.cf0fd2p-1,0x1.cd328ep-1,0x1.cb4a26p-1,0x1.c9568cp-1,
0x1.c75766p-1,0x1.c54cc6p-1,0x1.c3365ap-1,0x1.c11484p-1,0x1.bee73cp-1,0x1.bcae96p-1,0x1.ba6a5ep-1,0x1.b81ad8p-1,
0x1.b5bf6ap-1,0x1.b35896p-1,0x1.b0e5b8p-1,0x1.ae671ep-1,0x1.abdcaap-1,0x1.a94704p-1,0x1.a6a594p-1,0x1.a3f8fap-1,
0x1.a140bp-1,0x1.9e7ce8p-1,0x1.9badcp-1,0x1.98d39ap-1,0x1.95eep-1,0x1.92fd8cp-1,0x1.9001a2p-1,0x1.8cfb32p-1,
0x1.89ea08p-1,0x1.86ce2ep-1,0x1.83a7bap-1,0x1.80763p-1,0x1.7d3b02p-1,0x1.79f606p-1,0x1.76a66p-1,0x1.734d52p-1,
0x1.6feaccp-1,0x1.6c7ee6p-1,0x1.6909e6p-1,0x1.658bdap-1,0x1.6204f6p-1,0x1.5e758cp-1,0x1.5add5ep-1,0x1.573d26p-1,
0x1.5394ep-1,0x1.4fe53cp-1,0x1.4c2e06p-1,0x1.486fb2p-1,0x1.44aaa2p-1,0x1.40df16p-1,0x1.3d0c6ap-1,0x1.393372p-1,
0x1.3554acp-1,0x1.317032p-1,0x1.2d863p-1,0x1.29979cp-1,0x1.25a46ap-1,0x1.21acbp-1,0x1.1db09cp-1,0x1.19b064p-1,
0x1.15ac4ep-1,0x1.11a4d8p-1,0x1.0d9a64p-1,0x1.098d52p-1,0x1.057e4p-1,0x1.016c88p-1,0x1.fab1f6p-2,0x1.f28788p-2,
0x1.ea5a82p-2,0x1.e22bbap-2,0x1.d9fbf2p-2,0x1.d1cb82p-2,0x1.c99b92p-2,0x1.c16c34p-2,0x1.b93d5cp-2,0x1.b1118p-2,
0x1.a8e8e2p-2,0x1.a0c306p-2,0x1.98a142p-2,0x1.908598p-2,0x1.886e8p-2,0x1.805cf8p-2,0x1.785276p-2,0x1.704ffap-2,
0x1.685526p-2,0x1.6063a8p-2,0x1.587b5ep-2,0x1.509e54p-2,0x1.48cbf4p-2,0x1.410534p-2,0x1.394b5ep-2,0x1.319e02p-2,
0x1.29feacp-2,0x1.226d92p-2,0x1.1aea9p-2,0x1.1379dep-2,0x1.0c189p-2,0x1.04c564p-2,0x1.fb0d8p-3,0x1.ecb486p-3,
0x1.de8252p-3,0x1.d07674p-3,0x1.c29068p-3,0x1.b4d754p-3,0x1.a746acp-3,0x1.99e336p-3,0x1.8caap-3,0x1.7f9c9p-3,
0x1.72be7cp-3,0x1.66123ep-3,0x1.59942cp-3,0x1.4d4934p-3,0x1.412d9cp-3,0x1.3545fap-3,0x1.29921ep-3,0x1.1e1476p-3,
0x1.12c8bp-3,0x1.07b4a8p-3,0x1.f9ac8ap-4,0x1.e45fp-4,0x1.cf8086p-4,0x1.bb11fap-4,0x1.a7143p-4,0x1.938a06p-4,
0x1.807358p-4,0x1.6dd224p-4,0x1.5ba61cp-4,0x1.49f14ap-4,0x1.38b36ap-4,0x1.27ee7ep-4,0x1.17a23p-4,0x1.07d066p-4,
0x1.f0f17p-5,0x1.d339bep-5,0x1.b678bep-5,0x1.9ab182p-5,0x1.7fe2cep-5,0x1.660f4p-5,0x1.4d355p-5,0x1.355708p-5,
0x1.1e7282p-5,0x1.088914p-5,0x1.e730d8p-6,0x1.bf420ep-6,0x1.994056p-6,0x1.752a88p-6,0x1.52fa64p-6,0x1.32ac36p-6,
0x1.143934p-6,0x1.ef34f2p-7,0x1.b99272p-7,0x1.877496p-7,0x1.58d046p-7,0x1.2d822ep-7,0x1.058786p-7,0x1.c147cp-8,
0x1.7dd9aep-8,0x1.3fb5bap-8,0x1.07af5p-8,0x1.9d6cfp-9};
static const int lim_2_4[65]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,24,26,28,30,32,34,36,38,40,43,46,49,52,55,59,63,67,71,75,80,85,90,96,102,108,115,122,129,137,146,155,165,175,186,197,209,222,236,251,266,283,300,};
static const float win_3_0[130]={
-0x1.731ea6p-11,-0x1.1303d6p-9,-0x1.28903ap-8,-0x1.0dcf9ap-7,-0x1.b65782p-7,-0x1.47a266p-6,-0x1.cae6a8p-6,-0x1.30dd8ep-5,
-0x1.83a06p-5,-0x1.dab2b8p-5,-0x1.194c14p-4,-0x1.43c63cp-4,-0x1.6ae4bep-4,-0x1.8cd53ap-4,-0x1.a7eb8ep-4,-0x1.baae94p-4,
-0x1.c3e356p-4,-0x1.c27b6cp-4,-0x1.b585f8p-4,-0x1.9c22b6p-4,-0x1.7568eep-4,-0x1.40551ep-4,-0x1.f78964p-5,-0x1.4cdee6p-5,
-0x1.f76caap-7,0x1.e1bd8cp-7,0x1.98c25cp-5,0x1.72b4p-4,0x1.17f182p-3,0x1.81fbd8p-3,0x1.f71516p-3,0x1.3b2a64p-2,
0x1.7f24e8p-2,0x1.c67684p-2,0x1.07ec26p-1,0x1.2ce294p-1,0x1.51494p-1,0x1.7440e8p-1,0x1.94ed9cp-1,0x1.b28422p-1,
0x1.cc5b08p-1,0x1.e1f6a4p-1,0x1.f31434p-1,0x1.ffb2dcp-1,0x1.0408ep+0,0x1.06551cp+0,0x1.07130ap+0,0x1.06a76p+0,
0x1.057c4p+0,0x1.03f3dep+0,0x1.0265ep+0,0x1.00e5eap+0,0x1.ff6e7cp-1,0x1.fd99b8p-1,0x1.fc3556p-1,0x1.fb2cfp-1,
0x1.fa703p-1,0x1.f9f29cp-1,0x1.f9a9fap-1,0x1.f98d3cp-1,0x1.f9936p-1,0x1.f9b32cp-1,0x1.f9e388p-1,0x1.fa1bb6p-1,
0x1.fa541ep-1,0x1.fa8684p-1,0x1.faaec4p-1,0x1.facb4p-1,0x1.fadd42p-1,0x1.fae93p-1,0x1.faf5ecp-1,0x1.fb0bf2p-1,
0x1.fb33e8p-1,0x1.fb756p-1,0x1.fbd5eep-1,0x1.fc5868p-1,0x1.fcfcb8p-1,0x1.fdbfbap-1,0x1.fe9b64p-1,0x1.ff8738p-1,
0x1.003c72p+0,0x1.00b2cap+0,0x1.012168p+0,0x1.0183ecp+0,0x1.01d72ap+0,0x1.021968p+0,0x1.024a84p+0,0x1.026bdap+0,
0x1.028038p+0,0x1.028b74p+0,0x1.0291f2p+0,0x1.029808p+0,0x1.02a138p+0,0x1.02afc2p+0,0x1.02c452p+0,0x1.02de12p+0,
0x1.02faecp+0,0x1.0317aep+0,0x1.033076p+0,0x1.0340c4p+0,0x1.0343eap+0,0x1.03352cp+0,0x1.030ff6p+0,0x1.02cfbap+0,
0x1.026f68p+0,0x1.01e8f4p+0,0x1.013496p+0,0x1.0048d6p+0,0x1.fe35cap-1,0x1.fb3fa6p-1,0x1.f6fa1p-1,0x1.f11778p-1,
0x1.e8cafp-1,0x1.dd4378p-1,0x1.cdb8c8p-1,0x1.b98c48p-1,0x1.a06676p-1,0x1.8247f4p-1,0x1.5f91a6p-1,0x1.3902b6p-1,
0x1.0fad3p-1,0x1.c9dcb4p-2,0x1.74a536p-2,0x1.22fc12p-2,0x1.b02bcp-3,0x1.2d864ap-3,0x1.8468f4p-4,0x1.c11f08p-5,
0x1.ba9b82p-6,0x1.4792c4p-7};
static const int lim_3_0[65]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,51,53,55,57,59,61,63,65,67,69,71,73,75,77,80,};
static const float win_3_1[260]={
-0x1.e46e76p-12,-0x1.ff0842p-11,-0x1.b454e6p-10,-0x1.546872p-9,-0x1.f2e5bcp-9,-0x1.5cf41cp-8,-0x1.d6476p-8,-0x1.3371f4p-7,
-0x1.87aa8ap-7,-0x1.e816aep-7,-0x1.2a4c48p-6,-0x1.66696p-6,-0x1.a81862p-6,-0x1.eef02ap-6,-0x1.1d3666p-5,-0x1.44fb72p-5,
-0x1.6e6746p-5,-0x1.992082p-5,-0x1.c4b7a4p-5,-0x1.f0bd5ep-5,-0x1.0e601ap-4,-0x1.242016p-4,-0x1.39646cp-4,-0x1.4df206p-4,
-0x1.61880ap-4,-0x1.73ef04p-4,-0x1.84ee4p-4,-0x1.944e2cp-4,-0x1.a1e002p-4,-0x1.ad70c8p-4,-0x1.b6d694p-4,-0x1.bded7p-4,
-0x1.c28c2ep-4,-0x1.c491p-4,-0x1.c3e19ep-4,-0x1.c05b68p-4,-0x1.b9e3fap-4,-0x1.b060fep-4,-0x1.a3b25cp-4,-0x1.93be4ap-4,
-0x1.80658ep-4,-0x1.698692p-4,-0x1.4f00dcp-4,-0x1.30b152p-4,-0x1.0e6cfap-4,-0x1.d0216ap-5,-0x1.7ad5e4p-5,-0x1.1ca358p-5,
-0x1.6a5874p-6,-0x1.1050e8p-7,0x1.b84044p-8,0x1.78efecp-6,0x1.4c9a9ap-5,0x1.e7b078p-5,0x1.46ff8ap-4,0x1.9fd6eap-4,
0x1.fe6e8ap-4,0x1.316356p-3,0x1.6669fp-3,0x1.9e3fbap-3,0x1.d8d008p-3,0x1.0afe84p-2,0x1.2ad16ap-2,0x1.4bc92ap-2,
0x1.6dca6ep-2,0x1.90b4ccp-2,0x1.b4628cp-2,0x1.d8abb8p-2,0x1.fd62cap-2,0x1.112b32p-1,0x1.23a9c6p-1,0x1.36124ep-1,
0x1.484926p-1,0x1.5a3258p-1,0x1.6bb1b2p-1,0x1.7cab4cp-1,0x1.8d04ecp-1,0x1.9ca4a8p-1,0x1.ab72a2p-1,0x1.b9597cp-1,
0x1.c646fp-1,0x1.d22b44p-1,0x1.dcfa3p-1,0x1.e6aad4p-1,0x1.ef39a6p-1,0x1.f6a698p-1,0x1.fcf4dep-1,0x1.01165ep+0,
0x1.032d22p+0,0x1.04c65p+0,0x1.05eb1ep+0,0x1.06a622p+0,0x1.070386p+0,0x1.070fdep+0,0x1.06d858p+0,0x1.066a72p+0,
0x1.05d35ep+0,0x1.051f52p+0,0x1.0459e2p+0,0x1.038ffep+0,0x1.02d3d6p+0,0x1.01fd78p+0,0x1.013dc4p+0,0x1.009322p+0,
0x1.fff80cp-1,0x1.feed7ap-1,0x1.fe037cp-1,0x1.fd36fp-1,0x1.fc852p-1,0x1.fbeb52p-1,0x1.fb676p-1,0x1.faf728p-1,
0x1.fa990ap-1,0x1.fa4b4ap-1,0x1.fa0caap-1,0x1.f9dbdp-1,0x1.f9b7bp-1,0x1.f99f02p-1,0x1.f990dp-1,0x1.f98bd6p-1,
0x1.f98f14p-1,0x1.f9994p-1,0x1.f9a958p-1,0x1.f9be1p-1,0x1.f9d664p-1,0x1.f9f122p-1,0x1.fa0d68p-1,0x1.fa2a12p-1,
0x1.fa4664p-1,0x1.fa6176p-1,0x1.fa7ac4p-1,0x1.fa91a2p-1,0x1.faa5d2p-1,0x1.fab6f8p-1,0x1.fac538p-1,0x1.fad092p-1,
0x1.fad98ep-1,0x1.fae092p-1,0x1.fae672p-1,0x1.faebf6p-1,0x1.faf23cp-1,0x1.fafa36p-1,0x1.fb051ep-1,0x1.fb13e8p-1,
0x1.fb27ccp-1,0x1.fb419ap-1,0x1.fb624ap-1,0x1.fb8a6ep-1,0x1.fbbabp-1,0x1.fbf34ep-1,0x1.fc3496p-1,0x1.fc7e6p-1,
0x1.fcd09cp-1,0x1.fd2ac2p-1,0x1.fd8c62p-1,0x1.fdf49cp-1,0x1.fe629ep-1,0x1.fed534p-1,0x1.ff4b4cp-1,0x1.ffc37ap-1,
0x1.001e46p+0,0x1.005a7ap+0,0x1.0095bep+0,0x1.00cf58p+0,0x1.0106bep+0,0x1.013b52p+0,0x1.016ca4p+0,0x1.019a4p+0,
0x1.01c3e8p+0,0x1.01e956p+0,0x1.020a7cp+0,0x1.022742p+0,0x1.023fccp+0,0x1.02543cp+0,0x1.0264ep+0,0x1.027206p+0,
0x1.027c2ap+0,0x1.0283b4p+0,0x1.028944p+0,0x1.028d54p+0,0x1.029088p+0,0x1.029358p+0,0x1.029658p+0,0x1.0299ecp+0,
0x1.029e82p+0,0x1.02a44cp+0,0x1.02ab92p+0,0x1.02b454p+0,0x1.02bea2p+0,0x1.02ca52p+0,0x1.02d74p+0,0x1.02e518p+0,
0x1.02f394p+0,0x1.03023ep+0,0x1.0310b8p+0,0x1.031e6ap+0,0x1.032aep+0,0x1.03358p+0,0x1.033dcp+0,0x1.0342f8p+0,
0x1.0344ap+0,0x1.034212p+0,0x1.033accp+0,0x1.032e26p+0,0x1.031ba4p+0,0x1.0302ap+0,0x1.02e296p+0,0x1.02badap+0,
0x1.028ad2p+0,0x1.0251a4p+0,0x1.020e8ap+0,0x1.01c07cp+0,0x1.01667cp+0,0x1.00ff4p+0,0x1.00898cp+0,0x1.0003fap+0,
0x1.feda66p-1,0x1.fd8788p-1,0x1.fc0cecp-1,0x1.fa6824p-1,0x1.f82f5ap-1,0x1.f5b064p-1,0x1.f2c232p-1,0x1.ef464cp-1,
0x1.eb2356p-1,0x1.e63edep-1,0x1.e07e46p-1,0x1.d9c85ep-1,0x1.d2059p-1,0x1.c92184p-1,0x1.bf0cb4p-1,0x1.b3bbc8p-1,
0x1.a728e8p-1,0x1.9953e4p-1,0x1.8a4318p-1,0x1.7a02d6p-1,0x1.68a4aep-1,0x1.56409ap-1,0x1.42f502p-1,0x1.2ee392p-1,
0x1.1a32fep-1,0x1.051082p-1,0x1.df560ep-2,0x1.b467d2p-2,0x1.89bee2p-2,0x1.5fc476p-2,0x1.36e30ap-2,0x1.0f81c4p-2,
0x1.d406b2p-3,0x1.8d8574p-3,0x1.4c21a4p-3,0x1.10631ap-3,0x1.b5633p-4,0x1.56a1fcp-4,0x1.04b7d6p-4,0x1.7f1a1ep-5,
0x1.0d5be2p-5,0x1.65ac12p-6,0x1.b5e7ccp-7,0x1.bae686p-8};
static const int lim_3_1[65]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,30,32,34,36,38,40,42,44,46,48,50,52,55,58,61,64,67,70,73,76,80,84,88,92,96,101,106,111,116,121,127,133,139,146,153,160,};
static const float win_3_2[390]={
-0x1.7ae70ep-12,-0x1.731ea6p-11,-0x1.19a8b2p-10,-0x1.91fep-10,-0x1.1303d6p-9,-0x1.6c2c56p-9,-0x1.d5c772p-9,-0x1.28903ap-8,
-0x1.6f9ce6p-8,-0x1.c07a6cp-8,-0x1.0dcf9ap-7,-0x1.40a52cp-7,-0x1.78caf4p-7,-0x1.b65782p-7,-0x1.f95794p-7,-0x1.20d8bcp-6,
-0x1.47a266p-6,-0x1.70fb1ap-6,-0x1.9cc79p-6,-0x1.cae6a8p-6,-0x1.fb35ccp-6,-0x1.16c602p-5,-0x1.30dd8ep-5,-0x1.4bc7c6p-5,
-0x1.6766a8p-5,-0x1.83a06p-5,-0x1.a05816p-5,-0x1.bd69a6p-5,-0x1.dab2b8p-5,-0x1.f816b4p-5,-0x1.0ab836p-4,-0x1.194c14p-4,
-0x1.27b566p-4,-0x1.35e412p-4,-0x1.43c63cp-4,-0x1.514864p-4,-0x1.5e581cp-4,-0x1.6ae4bep-4,-0x1.76dea2p-4,-0x1.8234a2p-4,
-0x1.8cd53ap-4,-0x1.96b268p-4,-0x1.9fbf5ap-4,-0x1.a7eb8ep-4,-0x1.af28fep-4,-0x1.b56dap-4,-0x1.baae94p-4,-0x1.bedf5cp-4,
-0x1.c1f4a4p-4,-0x1.c3e356p-4,-0x1.c4a486p-4,-0x1.c4306cp-4,-0x1.c27b6cp-4,-0x1.bf7c2cp-4,-0x1.bb2d38p-4,-0x1.b585f8p-4,
-0x1.ae7ce6p-4,-0x1.a60916p-4,-0x1.9c22b6p-4,-0x1.90c1fp-4,-0x1.83dcdap-4,-0x1.7568eep-4,-0x1.655c88p-4,-0x1.53aedep-4,
-0x1.40551ep-4,-0x1.2b4274p-4,-0x1.146ad2p-4,-0x1.f78964p-5,-0x1.c284d2p-5,-0x1.89a97ap-5,-0x1.4cdee6p-5,-0x1.0c0bc6p-5,
-0x1.8e26bap-6,-0x1.f76caap-7,-0x1.8219dep-8,0x1.0e70cap-8,0x1.e1bd8cp-7,0x1.a77bc6p-6,0x1.33d3bp-5,0x1.98c25cp-5,
0x1.014fe6p-4,0x1.38bef2p-4,0x1.72b4p-4,0x1.af348ap-4,0x1.ee4408p-4,0x1.17f182p-3,0x1.3a0762p-3,0x1.5d6128p-3,
0x1.81fbd8p-3,0x1.a7d2c8p-3,0x1.ceddf6p-3,0x1.f71516p-3,0x1.1036f2p-2,0x1.256e82p-2,0x1.3b2a64p-2,0x1.516268p-2,
0x1.680e54p-2,0x1.7f24e8p-2,0x1.969a8ep-2,0x1.ae644p-2,0x1.c67684p-2,0x1.dec3eap-2,0x1.f73ea2p-2,0x1.07ec26p-1,
0x1.1440a8p-1,0x1.20956cp-1,0x1.2ce294p-1,0x1.391fa4p-1,0x1.45449cp-1,0x1.51494p-1,0x1.5d2506p-1,0x1.68cfa8p-1,
0x1.7440e8p-1,0x1.7f70bap-1,0x1.8a5786p-1,0x1.94ed9cp-1,0x1.9f2b84p-1,0x1.a90a76p-1,0x1.b28422p-1,0x1.bb92dcp-1,
0x1.c4317p-1,0x1.cc5b08p-1,0x1.d40cp-1,0x1.db40bcp-1,0x1.e1f6a4p-1,0x1.e82c2ap-1,0x1.ede0bp-1,0x1.f31434p-1,
0x1.f7c772p-1,0x1.fbfb78p-1,0x1.ffb2dcp-1,0x1.017894p+0,0x1.02dcf4p+0,0x1.0408ep+0,0x1.04fefp+0,0x1.05c1f8p+0,
0x1.06551cp+0,0x1.06bbdep+0,0x1.06f9ecp+0,0x1.07130ap+0,0x1.070af6p+0,0x1.06e5bap+0,0x1.06a76p+0,0x1.0653ccp+0,
0x1.05eedcp+0,0x1.057c4p+0,0x1.04ff5ep+0,0x1.047b8cp+0,0x1.03f3dep+0,0x1.03722cp+0,0x1.02fbdp+0,0x1.0265ep+0,
0x1.01dcp+0,0x1.015c34p+0,0x1.00e5eap+0,0x1.0078a4p+0,0x1.0013ecp+0,0x1.ff6e7cp-1,0x1.fec452p-1,0x1.fe2858p-1,
0x1.fd99b8p-1,0x1.fd1786p-1,0x1.fca102p-1,0x1.fc3556p-1,0x1.fbd3e6p-1,0x1.fb7becp-1,0x1.fb2cfp-1,0x1.fae646p-1,
0x1.faa788p-1,0x1.fa703p-1,0x1.fa3fdcp-1,0x1.fa1618p-1,0x1.f9f29cp-1,0x1.f9d4f4p-1,0x1.f9bcep-1,0x1.f9a9fap-1,
0x1.f99bf6p-1,0x1.f9928p-1,0x1.f98d3cp-1,0x1.f98bdap-1,0x1.f98e02p-1,0x1.f9936p-1,0x1.f99b9p-1,0x1.f9a64cp-1,
0x1.f9b32cp-1,0x1.f9c1eap-1,0x1.f9d21ep-1,0x1.f9e388p-1,0x1.f9f5c6p-1,0x1.fa08a2p-1,0x1.fa1bb6p-1,0x1.fa2ed8p-1,
0x1.fa41b6p-1,0x1.fa541ep-1,0x1.fa65d6p-1,0x1.fa76bp-1,0x1.fa8684p-1,0x1.fa9536p-1,0x1.faa2a4p-1,0x1.faaec4p-1,
0x1.fab992p-1,0x1.fac30ap-1,0x1.facb4p-1,0x1.fad23ep-1,0x1.fad834p-1,0x1.fadd42p-1,0x1.fae19ep-1,0x1.fae57ep-1,
0x1.fae93p-1,0x1.faecf2p-1,0x1.faf118p-1,0x1.faf5ecp-1,0x1.fafbcep-1,0x1.fb030ap-1,0x1.fb0bf2p-1,0x1.fb16dcp-1,
0x1.fb2414p-1,0x1.fb33e8p-1,0x1.fb469p-1,0x1.fb5c52p-1,0x1.fb756p-1,0x1.fb91eap-1,0x1.fbb21p-1,0x1.fbd5eep-1,
0x1.fbfd98p-1,0x1.fc291ap-1,0x1.fc5868p-1,0x1.fc8b84p-1,0x1.fcc252p-1,0x1.fcfcb8p-1,0x1.fd3a8cp-1,0x1.fd7b9ep-1,
0x1.fdbfbap-1,0x1.fe0696p-1,0x1.fe4feap-1,0x1.fe9b64p-1,0x1.fee8b2p-1,0x1.ff376cp-1,0x1.ff8738p-1,0x1.ffd79ep-1,
0x1.001432p+0,0x1.003c72p+0,0x1.006472p+0,0x1.008bf4p+0,0x1.00b2cap+0,0x1.00d8c2p+0,0x1.00fdbp+0,0x1.012168p+0,
0x1.0143c8p+0,0x1.0164a8p+0,0x1.0183ecp+0,0x1.01a17cp+0,0x1.01bd4p+0,0x1.01d72ap+0,0x1.01ef2ap+0,0x1.020542p+0,
0x1.021968p+0,0x1.022ba4p+0,0x1.023bfep+0,0x1.024a84p+0,0x1.025744p+0,0x1.02625ap+0,0x1.026bdap+0,0x1.0273ecp+0,
0x1.027aa8p+0,0x1.028038p+0,0x1.0284c4p+0,0x1.028874p+0,0x1.028b74p+0,0x1.028deap+0,0x1.029008p+0,0x1.0291f2p+0,
0x1.0293d4p+0,0x1.0295cep+0,0x1.029808p+0,0x1.029a9cp+0,0x1.029da8p+0,0x1.02a138p+0,0x1.02a56ap+0,0x1.02aa3ep+0,
0x1.02afc2p+0,0x1.02b5f4p+0,0x1.02bcdp+0,0x1.02c452p+0,0x1.02cc68p+0,0x1.02d504p+0,0x1.02de12p+0,0x1.02e77cp+0,
0x1.02f122p+0,0x1.02faecp+0,0x1.0304bp+0,0x1.030e58p+0,0x1.0317aep+0,0x1.03209ap+0,0x1.0328e8p+0,0x1.033076p+0,
0x1.03371p+0,0x1.033c9p+0,0x1.0340c4p+0,0x1.034384p+0,0x1.03449ep+0,0x1.0343eap+0,0x1.034136p+0,0x1.033c5cp+0,
0x1.03352cp+0,0x1.032b7cp+0,0x1.031f26p+0,0x1.030ff6p+0,0x1.02fdccp+0,0x1.02e86ep+0,0x1.02cfbap+0,0x1.02b374p+0,
0x1.02936ep+0,0x1.026f68p+0,0x1.02473p+0,0x1.021a7p+0,0x1.01e8f4p+0,0x1.01b25cp+0,0x1.01765ep+0,0x1.013496p+0,
0x1.00ecaep+0,0x1.009e3ap+0,0x1.0048d6p+0,0x1.ffd82cp-1,0x1.ff0f2ap-1,0x1.fe35cap-1,0x1.fd4b46p-1,0x1.fc4edep-1,
0x1.fb3fa6p-1,0x1.fa19f8p-1,0x1.f89804p-1,0x1.f6fa1p-1,0x1.f53c2ep-1,0x1.f3487cp-1,0x1.f11778p-1,0x1.eea21cp-1,
0x1.ebe09p-1,0x1.e8cafp-1,0x1.e5596ep-1,0x1.e18418p-1,0x1.dd4378p-1,0x1.d89084p-1,0x1.d3644ap-1,0x1.cdb8c8p-1,
0x1.c788e6p-1,0x1.c0d086p-1,0x1.b98c48p-1,0x1.b1b9bap-1,0x1.a957ccp-1,0x1.a06676p-1,0x1.96e6bep-1,0x1.8cdb56p-1,
0x1.8247f4p-1,0x1.773116p-1,0x1.6b9c98p-1,0x1.5f91a6p-1,0x1.53187ep-1,0x1.463afp-1,0x1.3902b6p-1,0x1.2b7ab8p-1,
0x1.1daedep-1,0x1.0fad3p-1,0x1.0182fap-1,0x1.e67d2ep-2,0x1.c9dcb4p-2,0x1.ad4412p-2,0x1.90d1cap-2,0x1.74a536p-2,
0x1.58ddd8p-2,0x1.3d9b5p-2,0x1.22fc12p-2,0x1.091df8p-2,0x1.e03b46p-3,0x1.b02bcp-3,0x1.824098p-3,0x1.56a6aap-3,
0x1.2d864ap-3,0x1.070246p-3,0x1.c66b62p-4,0x1.8468f4p-4,0x1.48160ap-4,0x1.117af6p-4,0x1.c11f08p-5,0x1.6a765ap-5,
0x1.1eaaecp-5,0x1.ba9b82p-6,0x1.4bac3ep-6,0x1.deac84p-7,0x1.4792c4p-7,0x1.5baf14p-8};
static const int lim_3_2[65]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,25,27,29,31,33,35,37,39,41,43,46,49,52,55,58,61,64,68,72,76,80,85,90,95,100,106,112,118,125,132,139,147,155,164,173,183,193,204,215,227,240,};
static const float win_3_3[520]={
-0x1.3cca78p-12,-0x1.33a37p-11,-0x1.b6a55p-11,-0x1.275738p-10,-0x1.817b1cp-10,-0x1.eb1eacp-10,-0x1.329dap-9,-0x1.78709ap-9,
-0x1.c7a3dp-9,-0x1.105d8p-8,-0x1.4214b2p-8,-0x1.792bc6p-8,-0x1.b5d242p-8,-0x1.f838d4p-8,-0x1.204094p-7,-0x1.475e6ap-7,
-0x1.717bc6p-7,-0x1.9e9fecp-7,-0x1.ced3f8p-7,-0x1.010cp-6,-0x1.1c2eb6p-6,-0x1.38c958p-6,-0x1.56d7c6p-6,-0x1.7652ap-6,
-0x1.972d2ap-6,-0x1.b957ecp-6,-0x1.dcc44p-6,-0x1.00b25ap-5,-0x1.13935ep-5,-0x1.26fabp-5,-0x1.3ade2cp-5,-0x1.4f3222p-5,
-0x1.63ea04p-5,-0x1.78fa76p-5,-0x1.8e5814p-5,-0x1.a3f5f4p-5,-0x1.b9c3f6p-5,-0x1.cfb2dcp-5,-0x1.e5b698p-5,-0x1.fbc31cp-5,
-0x1.08e3aep-4,-0x1.13d8ccp-4,-0x1.1eb95cp-4,-0x1.297eacp-4,-0x1.34221ep-4,-0x1.3e9bc2p-4,-0x1.48e334p-4,-0x1.52f0ep-4,
-0x1.5cbd14p-4,-0x1.66406ep-4,-0x1.6f747ap-4,-0x1.785298p-4,-0x1.80d392p-4,-0x1.88ef58p-4,-0x1.909f94p-4,-0x1.97dfa4p-4,
-0x1.9ea9c4p-4,-0x1.a4f676p-4,-0x1.aabf12p-4,-0x1.afff3ep-4,-0x1.b4b312p-4,-0x1.b8d58ep-4,-0x1.bc614cp-4,-0x1.bf51aap-4,
-0x1.c1a1fap-4,-0x1.c34d08p-4,-0x1.c44f4cp-4,-0x1.c4a702p-4,-0x1.c4504ep-4,-0x1.c345bap-4,-0x1.c182a6p-4,-0x1.bf04acp-4,
-0x1.bbc9c8p-4,-0x1.b7cdccp-4,-0x1.b30c6cp-4,-0x1.ad8254p-4,-0x1.a72bc8p-4,-0x1.a0050cp-4,-0x1.980b32p-4,-0x1.8f3aa4p-4,
-0x1.858f2ap-4,-0x1.7b03ecp-4,-0x1.6f9486p-4,-0x1.633db6p-4,-0x1.55fbdap-4,-0x1.47c9c2p-4,-0x1.38a272p-4,-0x1.288062p-4,
-0x1.175eeep-4,-0x1.053a1ap-4,-0x1.e418cep-5,-0x1.bb9f6ap-5,-0x1.90fbaap-5,-0x1.64227ap-5,-0x1.350a4p-5,-0x1.03a712p-5,
-0x1.9fdafap-6,-0x1.33a3fep-6,-0x1.851b7ap-7,-0x1.31fe7cp-8,0x1.74c80ep-9,0x1.5da072p-7,0x1.343dcap-6,0x1.befb28p-6,
0x1.278d44p-5,0x1.725602p-5,0x1.bfe04ep-5,0x1.081ac6p-4,0x1.31adc8p-4,0x1.5cabeep-4,0x1.8917acp-4,0x1.b6f2bap-4,
0x1.e63e1ep-4,0x1.0b7d5p-3,0x1.249398p-3,0x1.3e6104p-3,0x1.58e448p-3,0x1.741c66p-3,0x1.9007cep-3,0x1.aca38cp-3,
0x1.c9ebf2p-3,0x1.e7ddcep-3,0x1.033a88p-2,0x1.12d672p-2,0x1.22c028p-2,0x1.32f4ecp-2,0x1.43714ep-2,0x1.5431c2p-2,
0x1.6532c4p-2,0x1.7670a2p-2,0x1.87e684p-2,0x1.998f6cp-2,0x1.ab66ccp-2,0x1.bd67fap-2,0x1.cf8d5ap-2,0x1.e1d118p-2,
0x1.f42d44p-2,0x1.034e02p-1,0x1.0c8b5ap-1,0x1.15cb66p-1,0x1.1f0b0ep-1,0x1.284714p-1,0x1.317bcep-1,0x1.3aa5c2p-1,
0x1.43c192p-1,0x1.4ccbd6p-1,0x1.55c0e8p-1,0x1.5e9d3ap-1,0x1.675d48p-1,0x1.6ffdacp-1,0x1.787aecp-1,0x1.80d1bep-1,
0x1.88feecp-1,0x1.90ff42p-1,0x1.98cf8ap-1,0x1.a06cbap-1,0x1.a7d3fep-1,0x1.af02cp-1,0x1.b5f67cp-1,0x1.bcacfp-1,
0x1.c323ecp-1,0x1.c95956p-1,0x1.cf4bc2p-1,0x1.d4f976p-1,0x1.da6108p-1,0x1.df8162p-1,0x1.e459dp-1,0x1.e8e9dp-1,
0x1.ed312ep-1,0x1.f12ff2p-1,0x1.f4e66ap-1,0x1.f854e4p-1,0x1.fb7bd8p-1,0x1.fe5c7p-1,0x1.007c2p+0,0x1.01a84ep+0,
0x1.02b38ap+0,0x1.039ed8p+0,0x1.046b52p+0,0x1.051a0ep+0,0x1.05ac44p+0,0x1.06235p+0,0x1.0680aap+0,0x1.06c5c6p+0,
0x1.06f44p+0,0x1.070db2p+0,0x1.0713b6p+0,0x1.0707d4p+0,0x1.06ebd4p+0,0x1.06c17p+0,0x1.068a54p+0,0x1.06481p+0,
0x1.05fc48p+0,0x1.05a896p+0,0x1.054e74p+0,0x1.04ef3ap+0,0x1.048c42p+0,0x1.0426d2p+0,0x1.03c11cp+0,0x1.03644ap+0,
0x1.030f06p+0,0x1.029bcp+0,0x1.0230dap+0,0x1.01cb7ep+0,0x1.016ba4p+0,0x1.01112ep+0,0x1.00bbe8p+0,0x1.006b98p+0,
0x1.00200ep+0,0x1.ffb228p-1,0x1.ff2cf6p-1,0x1.feb012p-1,0x1.fe3b14p-1,0x1.fdcdaep-1,0x1.fd678p-1,0x1.fd0818p-1,
0x1.fcaf32p-1,0x1.fc5c7ap-1,0x1.fc0fa4p-1,0x1.fbc868p-1,0x1.fb8666p-1,0x1.fb498ap-1,0x1.fb117cp-1,0x1.fade06p-1,
0x1.faaef4p-1,0x1.fa8418p-1,0x1.fa5d46p-1,0x1.fa3a4cp-1,0x1.fa1af4p-1,0x1.f9ff32p-1,0x1.f9e6d4p-1,0x1.f9d1aap-1,
0x1.f9bf96p-1,0x1.f9b074p-1,0x1.f9a43p-1,0x1.f99a8cp-1,0x1.f9936ep-1,0x1.f98eb8p-1,0x1.f98c4ap-1,0x1.f98bf2p-1,
0x1.f98d8ap-1,0x1.f990fep-1,0x1.f99624p-1,0x1.f99ccap-1,0x1.f9a4d2p-1,0x1.f9ae18p-1,0x1.f9b884p-1,0x1.f9c3ep-1,
0x1.f9d002p-1,0x1.f9dcep-1,0x1.f9ea4cp-1,0x1.f9f81ep-1,0x1.fa063ep-1,0x1.fa1486p-1,0x1.fa22ecp-1,0x1.fa313ap-1,
0x1.fa3f5ap-1,0x1.fa4d48p-1,0x1.fa5adcp-1,0x1.fa68p-1,0x1.fa74ap-1,0x1.fa80b2p-1,0x1.fa8c2ep-1,0x1.fa96f8p-1,
0x1.faa104p-1,0x1.faaa6p-1,0x1.fab2fap-1,0x1.fabad8p-1,0x1.fac1eap-1,0x1.fac84ep-1,0x1.face04p-1,0x1.fad30ep-1,
0x1.fad782p-1,0x1.fadb7p-1,0x1.fadefap-1,0x1.fae222p-1,0x1.fae504p-1,0x1.fae7ccp-1,0x1.faea94p-1,0x1.faed72p-1,
0x1.faf08ap-1,0x1.faf3fep-1,0x1.faf802p-1,0x1.fafca4p-1,0x1.fb0208p-1,0x1.fb0864p-1,0x1.fb0fcap-1,0x1.fb1866p-1,
0x1.fb2248p-1,0x1.fb2da2p-1,0x1.fb3a92p-1,0x1.fb491ep-1,0x1.fb596ap-1,0x1.fb6b92p-1,0x1.fb7facp-1,0x1.fb95cp-1,
0x1.fbadd4p-1,0x1.fbc806p-1,0x1.fbe46p-1,0x1.fc02d6p-1,0x1.fc2372p-1,0x1.fc4634p-1,0x1.fc6b26p-1,0x1.fc922cp-1,
0x1.fcbb4p-1,0x1.fce668p-1,0x1.fd1384p-1,0x1.fd4286p-1,0x1.fd734ep-1,0x1.fda5d4p-1,0x1.fdda02p-1,0x1.fe0fa2p-1,
0x1.fe469cp-1,0x1.fe7edap-1,0x1.feb832p-1,0x1.fef27cp-1,0x1.ff2d82p-1,0x1.ff692ep-1,0x1.ffa558p-1,0x1.ffe1b6p-1,
0x1.000f26p+0,0x1.002d5cp+0,0x1.004b8p+0,0x1.00696ap+0,0x1.00870ap+0,0x1.00a45p+0,0x1.00c124p+0,0x1.00dd7p+0,
0x1.00f92p+0,0x1.011428p+0,0x1.012e7ap+0,0x1.0147fcp+0,0x1.0160ap+0,0x1.017864p+0,0x1.018f36p+0,0x1.01a51p+0,
0x1.01b9ep+0,0x1.01cda8p+0,0x1.01e064p+0,0x1.01f208p+0,0x1.020298p+0,0x1.021212p+0,0x1.02207ap+0,0x1.022dccp+0,
0x1.023a0ap+0,0x1.024546p+0,0x1.024f82p+0,0x1.0258cp+0,0x1.02610cp+0,0x1.026876p+0,0x1.026f0ep+0,0x1.0274d6p+0,
0x1.0279ep+0,0x1.027e42p+0,0x1.02820ap+0,0x1.028546p+0,0x1.028806p+0,0x1.028a62p+0,0x1.028c7p+0,0x1.028e32p+0,
0x1.028fc6p+0,0x1.02913cp+0,0x1.0292a8p+0,0x1.029414p+0,0x1.02958cp+0,0x1.029728p+0,0x1.0298f6p+0,0x1.029af8p+0,
0x1.029d3cp+0,0x1.029fdp+0,0x1.02a2bap+0,0x1.02a5fcp+0,0x1.02a998p+0,0x1.02ad9cp+0,0x1.02b2p+0,0x1.02b6c8p+0,
0x1.02bbeap+0,0x1.02c16cp+0,0x1.02c74ap+0,0x1.02cd76p+0,0x1.02d3e8p+0,0x1.02daap+0,0x1.02e192p+0,0x1.02e8bp+0,
0x1.02efeap+0,0x1.02f73cp+0,0x1.02fe9ap+0,0x1.0305e8p+0,0x1.030d24p+0,0x1.031438p+0,0x1.031b18p+0,0x1.0321bp+0,
0x1.0327e6p+0,0x1.032db8p+0,0x1.03331p+0,0x1.0337dp+0,0x1.033bfp+0,0x1.033f58p+0,0x1.0341fcp+0,0x1.0343cp+0,
0x1.034492p+0,0x1.034464p+0,0x1.034326p+0,0x1.0340bcp+0,0x1.033d16p+0,0x1.033824p+0,0x1.0331dap+0,0x1.032a1ap+0,
0x1.0320d6p+0,0x1.0315fep+0,0x1.030984p+0,0x1.02fb5p+0,0x1.02eb46p+0,0x1.02d964p+0,0x1.02c58ep+0,0x1.02afaap+0,
0x1.0297a4p+0,0x1.027d66p+0,0x1.0260d6p+0,0x1.0241dap+0,0x1.022048p+0,0x1.01fc16p+0,0x1.01d518p+0,0x1.01ab2ap+0,
0x1.017e2ap+0,0x1.014df2p+0,0x1.011a5ep+0,0x1.00e33ep+0,0x1.00a866p+0,0x1.0069bp+0,0x1.0026f2p+0,0x1.ffbfeep-1,
0x1.ff292ap-1,0x1.fe8942p-1,0x1.fddfe8p-1,0x1.fd2cbap-1,0x1.fc6f6ap-1,0x1.fba7dp-1,0x1.fad5f8p-1,0x1.f9f47p-1,
0x1.f8cd6cp-1,0x1.f7961p-1,0x1.f65848p-1,0x1.f500c4p-1,0x1.f38a2ep-1,0x1.f1f176p-1,0x1.f033dcp-1,0x1.ee4e3cp-1,
0x1.ec3d32p-1,0x1.e9fd62p-1,0x1.e78b94p-1,0x1.e4e46p-1,0x1.e2047ap-1,0x1.dee8b4p-1,0x1.db8e2ap-1,0x1.d7f1cp-1,
0x1.d410aap-1,0x1.cfe856p-1,0x1.cb7698p-1,0x1.c6b966p-1,0x1.c1af26p-1,0x1.bc567p-1,0x1.b6ae1ap-1,0x1.b0b556p-1,
0x1.aa6bep-1,0x1.a3d1bap-1,0x1.9ce728p-1,0x1.95ace4p-1,0x1.8e2444p-1,0x1.864ee4p-1,0x1.7e2e84p-1,0x1.75c542p-1,
0x1.6d15c6p-1,0x1.642322p-1,0x1.5af0a8p-1,0x1.518214p-1,0x1.47dbc6p-1,0x1.3e01c4p-1,0x1.33f874p-1,0x1.29c4bp-1,
0x1.1f6b8ep-1,0x1.14f352p-1,0x1.0a615p-1,0x1.ff772ep-2,0x1.ea1032p-2,0x1.d4999ep-2,0x1.bf20ecp-2,0x1.a9b31p-2,
0x1.945ce8p-2,0x1.7f2bcp-2,0x1.6a2ce6p-2,0x1.556dap-2,0x1.40fb4ep-2,0x1.2ce2c4p-2,0x1.19308cp-2,0x1.05f13ep-2,
0x1.e66146p-3,0x1.c1f3f6p-3,0x1.9eb0bep-3,0x1.7cac08p-3,0x1.5bf816p-3,0x1.3ca5dcp-3,0x1.1ec4dp-3,0x1.026222p-3,
0x1.cf112p-4,0x1.9c8084p-4,0x1.6d1e52p-4,0x1.40f25ap-4,0x1.17fec8p-4,0x1.e47e02p-5,0x1.9f535cp-5,0x1.60659p-5,
0x1.2791aep-5,0x1.e9473p-6,0x1.8ebdbap-6,0x1.3f1b6cp-6,0x1.f3f1d8p-7,0x1.7d5992p-7,0x1.1455dep-7,0x1.239d0ep-8};
static const int lim_3_3[65]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,22,24,26,28,30,32,34,36,38,41,44,47,50,53,56,60,64,68,72,76,81,86,91,97,103,109,116,123,131,139,148,157,166,176,187,199,211,224,238,252,268,284,302,320,};
static const float win_3_4[780]={
-0x1.ed7774p-13,-0x1.e46e76p-12,-0x1.485ba4p-11,-0x1.9fb7a8p-11,-0x1.ff0842p-11,-0x1.3565b2p-10,-0x1.716a6ap-10,-0x1.b454e6p-10,
-0x1.fe498ep-10,-0x1.27d718p-9,-0x1.546872p-9,-0x1.84f864p-9,-0x1.b9c5b2p-9,-0x1.f2e5bcp-9,-0x1.184a08p-8,-0x1.396c88p-8,
-0x1.5cf41cp-8,-0x1.82e2aep-8,-0x1.ab527ep-8,-0x1.d6476p-8,-0x1.01ee48p-7,-0x1.1a0546p-7,-0x1.3371f4p-7,-0x1.4e2d4ep-7,
-0x1.6a41cap-7,-0x1.87aa8ap-7,-0x1.a6726ep-7,-0x1.c69418p-7,-0x1.e816aep-7,-0x1.057714p-6,-0x1.178eeep-6,-0x1.2a4c48p-6,
-0x1.3db252p-6,-0x1.51bb84p-6,-0x1.66696p-6,-0x1.7bb41ap-6,-0x1.919beep-6,-0x1.a81862p-6,-0x1.bf299ep-6,-0x1.d6c6cp-6,
-0x1.eef02ap-6,-0x1.03cdecp-5,-0x1.10646p-5,-0x1.1d3666p-5,-0x1.2a430cp-5,-0x1.37854ap-5,-0x1.44fb72p-5,-0x1.529f5cp-5,
-0x1.606fbep-5,-0x1.6e6746p-5,-0x1.7c852ep-5,-0x1.8ac37ap-5,-0x1.992082p-5,-0x1.a7953ep-5,-0x1.b61f16p-5,-0x1.c4b7a4p-5,
-0x1.d35d1ap-5,-0x1.e20a2p-5,-0x1.f0bd5ep-5,-0x1.ff6f62p-5,-0x1.070ebcp-4,-0x1.0e601ap-4,-0x1.15aa92p-4,-0x1.1ceaeap-4,
-0x1.242016p-4,-0x1.2b470ep-4,-0x1.325ef4p-4,-0x1.39646cp-4,-0x1.40561ap-4,-0x1.47305cp-4,-0x1.4df206p-4,-0x1.549796p-4,
-0x1.5b1ffap-4,-0x1.61880ap-4,-0x1.67ced8p-4,-0x1.6df18p-4,-0x1.73ef04p-4,-0x1.79c406p-4,-0x1.7f6fa4p-4,-0x1.84ee4p-4,
-0x1.8a3f12p-4,-0x1.8f5f24p-4,-0x1.944e2cp-4,-0x1.9909a4p-4,-0x1.9d90a6p-4,-0x1.a1e002p-4,-0x1.a5f69ap-4,-0x1.a9d194p-4,
-0x1.ad70c8p-4,-0x1.b0d1a6p-4,-0x1.b3f47p-4,-0x1.b6d694p-4,-0x1.b97784p-4,-0x1.bbd49ep-4,-0x1.bded7p-4,-0x1.bfbf94p-4,
-0x1.c14aacp-4,-0x1.c28c2ep-4,-0x1.c383eap-4,-0x1.c42ffp-4,-0x1.c491p-4,-0x1.c4a4b6p-4,-0x1.c46b24p-4,-0x1.c3e19ep-4,
-0x1.c30782p-4,-0x1.c1daaep-4,-0x1.c05b68p-4,-0x1.be87fap-4,-0x1.bc60fp-4,-0x1.b9e3fap-4,-0x1.b710c2p-4,-0x1.b3e514p-4,
-0x1.b060fep-4,-0x1.ac822p-4,-0x1.a848a4p-4,-0x1.a3b25cp-4,-0x1.9ebf8ep-4,-0x1.996e3cp-4,-0x1.93be4ap-4,-0x1.8dad5p-4,
-0x1.873b38p-4,-0x1.80658ep-4,-0x1.792c06p-4,-0x1.718c52p-4,-0x1.698692p-4,-0x1.61186ep-4,-0x1.58421cp-4,-0x1.4f00dcp-4,
-0x1.455476p-4,-0x1.3b3a36p-4,-0x1.30b152p-4,-0x1.25b742p-4,-0x1.1a4bcep-4,-0x1.0e6cfap-4,-0x1.021a7p-4,-0x1.eaa276p-5,
-0x1.d0216ap-5,-0x1.b4aab8p-5,-0x1.983e0cp-5,-0x1.7ad5e4p-5,-0x1.5c716ep-5,-0x1.3d0be4p-5,-0x1.1ca358p-5,-0x1.f663bp-6,
-0x1.b16d2cp-6,-0x1.6a5874p-6,-0x1.212296p-6,-0x1.ab7c38p-7,-0x1.1050e8p-7,-0x1.c2a926p-9,0x1.9ba616p-10,0x1.b84044p-8,
0x1.895f5p-7,0x1.1da36cp-6,0x1.78efecp-6,0x1.d6a09ap-6,0x1.1b5a5p-5,0x1.4c9a9ap-5,0x1.7f10fcp-5,0x1.b2c2aap-5,
0x1.e7b078p-5,0x1.0eef9cp-4,0x1.2aa6cp-4,0x1.46ff8ap-4,0x1.63f9b8p-4,0x1.8196fep-4,0x1.9fd6eap-4,0x1.bebb1ap-4,
0x1.de4284p-4,0x1.fe6e8ap-4,0x1.0f9ee6p-3,0x1.205882p-3,0x1.316356p-3,0x1.42bfacp-3,0x1.546c74p-3,0x1.6669fp-3,
0x1.78b736p-3,0x1.8b5444p-3,0x1.9e3fbap-3,0x1.b17918p-3,0x1.c4feaap-3,0x1.d8d008p-3,0x1.ecebap-3,0x1.00a85p-2,
0x1.0afe84p-2,0x1.157816p-2,0x1.2013e6p-2,0x1.2ad16ap-2,0x1.35af6ep-2,0x1.40ad1cp-2,0x1.4bc92ap-2,0x1.5702e4p-2,
0x1.6258eap-2,0x1.6dca6ep-2,0x1.7955dap-2,0x1.84f9e4p-2,0x1.90b4ccp-2,0x1.9c8592p-2,0x1.a86a84p-2,0x1.b4628cp-2,
0x1.c06bd8p-2,0x1.cc84ep-2,0x1.d8abb8p-2,0x1.e4defp-2,0x1.f11c6ep-2,0x1.fd62cap-2,0x1.04d7e8p-1,0x1.0b00dep-1,
0x1.112b32p-1,0x1.17562p-1,0x1.1d8098p-1,0x1.23a9c6p-1,0x1.29d076p-1,0x1.2ff3bp-1,0x1.36124ep-1,0x1.3c2b7ap-1,
0x1.423e0ep-1,0x1.484926p-1,0x1.4e4b94p-1,0x1.54445ep-1,0x1.5a3258p-1,0x1.6014a2p-1,0x1.65ea08p-1,0x1.6bb1b2p-1,
0x1.716a68p-1,0x1.77134ep-1,0x1.7cab4cp-1,0x1.823198p-1,0x1.87a516p-1,0x1.8d04ecp-1,0x1.92500ep-1,0x1.9785a4p-1,
0x1.9ca4a8p-1,0x1.a1ac7p-1,0x1.a69bf6p-1,0x1.ab72a2p-1,0x1.b02f86p-1,0x1.b4d20ep-1,0x1.b9597cp-1,0x1.bdc544p-1,
0x1.c2149p-1,0x1.c646fp-1,0x1.ca5bc2p-1,0x1.ce52c2p-1,0x1.d22b44p-1,0x1.d5e4fap-1,0x1.d97f5ap-1,0x1.dcfa3p-1,
0x1.e05522p-1,0x1.e3901cp-1,0x1.e6aad4p-1,0x1.e9a57p-1,0x1.ec7fa8p-1,0x1.ef39a6p-1,0x1.f1d35cp-1,0x1.f44d06p-1,
0x1.f6a698p-1,0x1.f8e058p-1,0x1.fafa44p-1,0x1.fcf4dep-1,0x1.fed078p-1,0x1.0046d8p+0,0x1.01165ep+0,0x1.01d71cp+0,
0x1.02893ep+0,0x1.032d22p+0,0x1.03c308p+0,0x1.044b58p+0,0x1.04c65p+0,0x1.05346p+0,0x1.0595d2p+0,0x1.05eb1ep+0,
0x1.06349cp+0,0x1.0672d6p+0,0x1.06a622p+0,0x1.06cf0ep+0,0x1.06ee02p+0,0x1.070386p+0,0x1.071p+0,0x1.0714p+0,
0x1.070fdep+0,0x1.07043ep+0,0x1.06f188p+0,0x1.06d858p+0,0x1.06b916p+0,0x1.069458p+0,0x1.066a72p+0,0x1.063c1p+0,
0x1.06097ep+0,0x1.05d35ep+0,0x1.0599f8p+0,0x1.055de4p+0,0x1.051f52p+0,0x1.04def8p+0,0x1.049cecp+0,0x1.0459e2p+0,
0x1.0415cap+0,0x1.03d206p+0,0x1.038ffep+0,0x1.035716p+0,0x1.032098p+0,0x1.02d3d6p+0,0x1.0289c4p+0,0x1.02425ap+0,
0x1.01fd78p+0,0x1.01bb22p+0,0x1.017b3cp+0,0x1.013dc4p+0,0x1.01029cp+0,0x1.00c9c6p+0,0x1.009322p+0,0x1.005eaep+0,
0x1.002c5p+0,0x1.fff80cp-1,0x1.ff9b5ap-1,0x1.ff4294p-1,0x1.feed7ap-1,0x1.fe9c0cp-1,0x1.fe4e08p-1,0x1.fe037cp-1,
0x1.fdbc28p-1,0x1.fd780ep-1,0x1.fd36fp-1,0x1.fcf8d8p-1,0x1.fcbd92p-1,0x1.fc852p-1,0x1.fc4f42p-1,0x1.fc1c0ep-1,
0x1.fbeb52p-1,0x1.fbbd1p-1,0x1.fb9108p-1,0x1.fb676p-1,0x1.fb3fdep-1,0x1.fb1a84p-1,0x1.faf728p-1,0x1.fad5e4p-1,
0x1.fab67ep-1,0x1.fa990ap-1,0x1.fa7d56p-1,0x1.fa637ap-1,0x1.fa4b4ap-1,0x1.fa34d6p-1,0x1.fa1feap-1,0x1.fa0caap-1,
0x1.f9fae6p-1,0x1.f9eaaep-1,0x1.f9dbdp-1,0x1.f9ce72p-1,0x1.f9c262p-1,0x1.f9b7bp-1,0x1.f9ae34p-1,0x1.f9a60cp-1,
0x1.f99f02p-1,0x1.f99932p-1,0x1.f9947p-1,0x1.f990dp-1,0x1.f98e26p-1,0x1.f98c8ep-1,0x1.f98bd6p-1,0x1.f98c16p-1,
0x1.f98d22p-1,0x1.f98f14p-1,0x1.f991bcp-1,0x1.f9953p-1,0x1.f9994p-1,0x1.f99e0ap-1,0x1.f9a362p-1,0x1.f9a958p-1,
0x1.f9afcp-1,0x1.f9b6b8p-1,0x1.f9be1p-1,0x1.f9c5dcp-1,0x1.f9cdecp-1,0x1.f9d664p-1,0x1.f9df12p-1,0x1.f9e80ap-1,
0x1.f9f122p-1,0x1.f9fa78p-1,0x1.fa03dep-1,0x1.fa0d68p-1,0x1.fa16e8p-1,0x1.fa2088p-1,0x1.fa2a12p-1,0x1.fa339ap-1,
0x1.fa3dp-1,0x1.fa4664p-1,0x1.fa4f9p-1,0x1.fa58a2p-1,0x1.fa6176p-1,0x1.fa6a26p-1,0x1.fa728cp-1,0x1.fa7ac4p-1,
0x1.fa82a4p-1,0x1.fa8a5p-1,0x1.fa91a2p-1,0x1.fa98b4p-1,0x1.fa9f6p-1,0x1.faa5d2p-1,0x1.faabdap-1,0x1.fab19ap-1,
0x1.fab6f8p-1,0x1.fabc16p-1,0x1.fac0c8p-1,0x1.fac538p-1,0x1.fac94cp-1,0x1.facd2p-1,0x1.fad092p-1,0x1.fad3d8p-1,
0x1.fad6ccp-1,0x1.fad98ep-1,0x1.fadc0cp-1,0x1.fade6ep-1,0x1.fae092p-1,0x1.fae2a2p-1,0x1.fae488p-1,0x1.fae672p-1,
0x1.fae842p-1,0x1.faea2p-1,0x1.faebf6p-1,0x1.faedf4p-1,0x1.faeffep-1,0x1.faf23cp-1,0x1.faf49cp-1,0x1.faf74ep-1,
0x1.fafa36p-1,0x1.fafd7cp-1,0x1.fb010ep-1,0x1.fb051ep-1,0x1.fb098ap-1,0x1.fb0e7cp-1,0x1.fb13e8p-1,0x1.fb19f6p-1,
0x1.fb2088p-1,0x1.fb27ccp-1,0x1.fb2facp-1,0x1.fb3852p-1,0x1.fb419ap-1,0x1.fb4bb8p-1,0x1.fb569p-1,0x1.fb624ap-1,
0x1.fb6ec6p-1,0x1.fb7c32p-1,0x1.fb8a6ep-1,0x1.fb99a2p-1,0x1.fba9aap-1,0x1.fbbabp-1,0x1.fbcc98p-1,0x1.fbdf82p-1,
0x1.fbf34ep-1,0x1.fc082p-1,0x1.fc1ddap-1,0x1.fc3496p-1,0x1.fc4c34p-1,0x1.fc64dap-1,0x1.fc7e6p-1,0x1.fc98e2p-1,
0x1.fcb44p-1,0x1.fcd09cp-1,0x1.fcedc8p-1,0x1.fd0bep-1,0x1.fd2ac2p-1,0x1.fd4a8cp-1,0x1.fd6b0ap-1,0x1.fd8c62p-1,
0x1.fdae68p-1,0x1.fdd136p-1,0x1.fdf49cp-1,0x1.fe18b6p-1,0x1.fe3d5ap-1,0x1.fe629ep-1,0x1.fe8854p-1,0x1.feae94p-1,
0x1.fed534p-1,0x1.fefc48p-1,0x1.ff239ep-1,0x1.ff4b4cp-1,0x1.ff732cp-1,0x1.ff9b4ep-1,0x1.ffc37ap-1,0x1.ffebd4p-1,
0x1.000a16p+0,0x1.001e46p+0,0x1.003264p+0,0x1.00467ep+0,0x1.005a7ap+0,0x1.006e6p+0,0x1.00821ep+0,0x1.0095bep+0,
0x1.00a926p+0,0x1.00bc6p+0,0x1.00cf58p+0,0x1.00e21ap+0,0x1.00f48ep+0,0x1.0106bep+0,0x1.011896p+0,0x1.012a26p+0,
0x1.013b52p+0,0x1.014c28p+0,0x1.015c92p+0,0x1.016ca4p+0,0x1.017c42p+0,0x1.018b7ap+0,0x1.019a4p+0,0x1.01a89cp+0,
0x1.01b678p+0,0x1.01c3e8p+0,0x1.01d0dap+0,0x1.01dd5ap+0,0x1.01e956p+0,0x1.01f4ep+0,0x1.01ffe8p+0,0x1.020a7cp+0,
0x1.02148ap+0,0x1.021e28p+0,0x1.022742p+0,0x1.022feap+0,0x1.023812p+0,0x1.023fccp+0,0x1.02470cp+0,0x1.024dep+0,
0x1.02543cp+0,0x1.025a34p+0,0x1.025fbap+0,0x1.0264ep+0,0x1.02699cp+0,0x1.026e04p+0,0x1.027206p+0,0x1.0275bap+0,
0x1.027914p+0,0x1.027c2ap+0,0x1.027eeep+0,0x1.028174p+0,0x1.0283b4p+0,0x1.0285c6p+0,0x1.028798p+0,0x1.028944p+0,
0x1.028abep+0,0x1.028c1ep+0,0x1.028d54p+0,0x1.028e7ap+0,0x1.028f84p+0,0x1.029088p+0,0x1.029178p+0,0x1.02926cp+0,
0x1.029358p+0,0x1.029452p+0,0x1.02954ap+0,0x1.029658p+0,0x1.02977p+0,0x1.0298a6p+0,0x1.0299ecp+0,0x1.029b54p+0,
0x1.029cd6p+0,0x1.029e82p+0,0x1.02a044p+0,0x1.02a238p+0,0x1.02a44cp+0,0x1.02a69p+0,0x1.02a8f6p+0,0x1.02ab92p+0,
0x1.02ae5p+0,0x1.02b14p+0,0x1.02b454p+0,0x1.02b79ep+0,0x1.02bb06p+0,0x1.02bea2p+0,0x1.02c26p+0,0x1.02c64cp+0,
0x1.02ca52p+0,0x1.02ce84p+0,0x1.02d2dp+0,0x1.02d74p+0,0x1.02dbc4p+0,0x1.02e068p+0,0x1.02e518p+0,0x1.02e9e6p+0,
0x1.02eeb4p+0,0x1.02f394p+0,0x1.02f876p+0,0x1.02fd62p+0,0x1.03023ep+0,0x1.03072p+0,0x1.030bfp+0,0x1.0310b8p+0,
0x1.03156p+0,0x1.0319f8p+0,0x1.031e6ap+0,0x1.0322cp+0,0x1.0326e2p+0,0x1.032aep+0,0x1.032ea4p+0,0x1.033238p+0,
0x1.03358p+0,0x1.03388ep+0,0x1.033b4ap+0,0x1.033dcp+0,0x1.033fd6p+0,0x1.03419ap+0,0x1.0342f8p+0,0x1.0343f6p+0,
0x1.03448p+0,0x1.0344ap+0,0x1.034442p+0,0x1.03437p+0,0x1.034212p+0,0x1.034038p+0,0x1.033dc8p+0,0x1.033accp+0,
0x1.03373p+0,0x1.033302p+0,0x1.032e26p+0,0x1.0328aap+0,0x1.03227cp+0,0x1.031ba4p+0,0x1.031406p+0,0x1.030bb8p+0,
0x1.0302ap+0,0x1.02f8c6p+0,0x1.02ee12p+0,0x1.02e296p+0,0x1.02d638p+0,0x1.02c902p+0,0x1.02badap+0,0x1.02abdp+0,
0x1.029bcap+0,0x1.028ad2p+0,0x1.0278ccp+0,0x1.0265c2p+0,0x1.0251a4p+0,0x1.023c7p+0,0x1.02260cp+0,0x1.020e8ap+0,
0x1.01f5cap+0,0x1.01dbccp+0,0x1.01c07cp+0,0x1.01a3e4p+0,0x1.0185e2p+0,0x1.01667cp+0,0x1.014596p+0,0x1.012336p+0,
0x1.00ff4p+0,0x1.00d9b4p+0,0x1.00b276p+0,0x1.00898cp+0,0x1.005edap+0,0x1.00325ep+0,0x1.0003fap+0,0x1.ffa76ep-1,
0x1.ff42e8p-1,0x1.feda66p-1,0x1.fe6dbp-1,0x1.fdfcdp-1,0x1.fd8788p-1,0x1.fd0de6p-1,0x1.fc8faep-1,0x1.fc0cecp-1,
0x1.fb856cp-1,0x1.faf93cp-1,0x1.fa6824p-1,0x1.f9d222p-1,0x1.f9039p-1,0x1.f82f5ap-1,0x1.f762bap-1,0x1.f68edp-1,
0x1.f5b064p-1,0x1.f4c482p-1,0x1.f3cae8p-1,0x1.f2c232p-1,0x1.f1a9dap-1,0x1.f080dp-1,0x1.ef464cp-1,0x1.edf928p-1,
0x1.ec9886p-1,0x1.eb2356p-1,0x1.e998a6p-1,0x1.e7f77ep-1,0x1.e63edep-1,0x1.e46dcp-1,0x1.e28332p-1,0x1.e07e46p-1,
0x1.de5e0cp-1,0x1.dc21cp-1,0x1.d9c85ep-1,0x1.d75114p-1,0x1.d4bb0ep-1,0x1.d2059p-1,0x1.cf2fdep-1,0x1.cc396ap-1,
0x1.c92184p-1,0x1.c5e7cp-1,0x1.c28b98p-1,0x1.bf0cb4p-1,0x1.bb6a9ap-1,0x1.b7a512p-1,0x1.b3bbc8p-1,0x1.afaeb2p-1,
0x1.ab7db8p-1,0x1.a728e8p-1,0x1.a2b032p-1,0x1.9e13d2p-1,0x1.9953e4p-1,0x1.9470dap-1,0x1.8f6b12p-1,0x1.8a4318p-1,
0x1.84f95p-1,0x1.7f8e6p-1,0x1.7a02d6p-1,0x1.74577ap-1,0x1.6e8d18p-1,0x1.68a4aep-1,0x1.629f0cp-1,0x1.5c7d5ap-1,
0x1.56409ap-1,0x1.4fea1cp-1,0x1.497b2ep-1,0x1.42f502p-1,0x1.3c58b2p-1,0x1.35a7cp-1,0x1.2ee392p-1,0x1.280dap-1,
0x1.212762p-1,0x1.1a32fep-1,0x1.1331f4p-1,0x1.0c25dcp-1,0x1.051082p-1,0x1.fbe7a2p-2,0x1.eda2cap-2,0x1.df560ep-2,
0x1.d10548p-2,0x1.c2b4a2p-2,0x1.b467d2p-2,0x1.a622b6p-2,0x1.97e90ep-2,0x1.89bee2p-2,0x1.7ba816p-2,0x1.6da8a8p-2,
0x1.5fc476p-2,0x1.51ff8ap-2,0x1.445dcap-2,0x1.36e30ap-2,0x1.2992f2p-2,0x1.1c7146p-2,0x1.0f81c4p-2,0x1.02c808p-2,
0x1.ec8eeep-3,0x1.d406b2p-3,0x1.bbfe26p-3,0x1.a47baap-3,0x1.8d8574p-3,0x1.7720d4p-3,0x1.615352p-3,0x1.4c21a4p-3,
0x1.379104p-3,0x1.23a562p-3,0x1.10631ap-3,0x1.fb99e6p-4,0x1.d7cd18p-4,0x1.b5633p-4,0x1.94621cp-4,0x1.74caep-4,
0x1.56a1fcp-4,0x1.39e5b6p-4,0x1.1e9936p-4,0x1.04b7d6p-4,0x1.d8876cp-5,0x1.aa69e2p-5,0x1.7f1a1ep-5,0x1.5680e4p-5,
0x1.30a18ap-5,0x1.0d5be2p-5,0x1.d96c72p-6,0x1.9d0996p-6,0x1.65ac12p-6,0x1.32daf6p-6,0x1.04daaep-6,0x1.b5e7ccp-7,
0x1.6b40a8p-7,0x1.250f4cp-7,0x1.bae686p-8,0x1.cb556ep-9};
static const int lim_3_4[65]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,20,22,24,26,28,30,32,34,36,39,42,45,48,51,55,59,63,67,71,76,81,86,92,98,105,112,119,127,135,144,154,164,175,186,198,211,225,240,256,273,291,310,330,352,375,400,};
static const float win_3_5[780]={
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x1.94bb82p-24,0x1.4cc5fp-21,0x1.ea2c62p-20,0x1.1bb272p-18,0x1.1f8076p-17,0x1.0ac7ecp-16,0x1.d04a46p-16,0x1.80679cp-15,
0x1.31bf2p-14,0x1.d669ep-14,0x1.5fc2fcp-13,0x1.00a73ap-12,0x1.6e84aep-12,0x1.00b9b4p-11,0x1.617bcep-11,0x1.df24acp-11,
0x1.401ed6p-10,0x1.a62792p-10,0x1.12fbd8p-9,0x1.623386p-9,0x1.c36eeep-9,0x1.1cd56ep-8,0x1.6415f2p-8,0x1.b93ddap-8,
0x1.0f193p-7,0x1.4a7af2p-7,0x1.8fd1ep-7,0x1.e03586p-7,0x1.1e621p-6,0x1.534f8p-6,0x1.8f7336p-6,0x1.d35a8p-6,
0x1.0fc6b6p-5,0x1.3a4618p-5,0x1.69663p-5,0x1.9d5b26p-5,0x1.d65112p-5,0x1.0a355ap-4,0x1.2be01p-4,0x1.502ed4p-4,
0x1.77215ep-4,0x1.a0b094p-4,0x1.ccce24p-4,0x1.fb645cp-4,0x1.162b02p-3,0x1.2fbf32p-3,0x1.4a58cp-3,0x1.65de2ap-3,
0x1.8232a4p-3,0x1.9f366ep-3,0x1.bcc722p-3,0x1.dac022p-3,0x1.f8fb14p-3,0x1.0ba834p-2,0x1.1acbeap-2,0x1.29d47cp-2,
0x1.38adf8p-2,0x1.4744eap-2,0x1.5586b4p-2,0x1.6361c6p-2,0x1.70c5eap-2,0x1.7da486p-2,0x1.89f0b8p-2,0x1.959f92p-2,
0x1.a0a83ap-2,0x1.ab0406p-2,0x1.b4ae8p-2,0x1.bda57p-2,0x1.c5e8d8p-2,0x1.cd7adep-2,0x1.d45fb8p-2,0x1.da9d86p-2,
0x1.e03c28p-2,0x1.e54518p-2,0x1.e9c332p-2,0x1.edc27cp-2,0x1.f14ff6p-2,0x1.f4795ep-2,0x1.f74d02p-2,0x1.f9d982p-2,
0x1.fc2dacp-2,0x1.fe585p-2,0x1.003408p-1,0x1.0135a6p-1,0x1.0238p-1,0x1.0341d4p-1,0x1.04599ap-1,0x1.058578p-1,
0x1.06cb3ep-1,0x1.08306p-1,0x1.09b9ecp-1,0x1.0b6c8ap-1,0x1.0d4c74p-1,0x1.0f5d76p-1,0x1.11a2e2p-1,0x1.141f8ep-1,
0x1.16d5d2p-1,0x1.19c782p-1,0x1.1cf5e4p-1,0x1.2061b8p-1,0x1.240b3p-1,0x1.27f1f2p-1,0x1.2c1514p-1,0x1.307326p-1,
0x1.350a2ep-1,0x1.39d7b6p-1,0x1.3ed8cep-1,0x1.440a16p-1,0x1.4967cep-1,0x1.4eedd4p-1,0x1.5497bep-1,0x1.5a60dep-1,
0x1.604452p-1,0x1.663d14p-1,0x1.6c45fep-1,0x1.7259e2p-1,0x1.787392p-1,0x1.7e8de8p-1,0x1.84a3d6p-1,0x1.8ab072p-1,
0x1.90aef8p-1,0x1.969ad8p-1,0x1.9c6fbep-1,0x1.a22994p-1,0x1.a7c48cp-1,0x1.ad3d2p-1,0x1.b2901ap-1,0x1.b7ba8cp-1,
0x1.bcb9e4p-1,0x1.c18bd6p-1,0x1.c62e6ep-1,0x1.caa006p-1,0x1.cedf46p-1,0x1.d2eb26p-1,0x1.d6c2eap-1,0x1.da661ap-1,
0x1.ddd48cp-1,0x1.e10e5ap-1,0x1.e413ep-1,0x1.e6e5bap-1,0x1.e984c2p-1,0x1.ebf20ep-1,0x1.ee2eeap-1,0x1.f03cd8p-1,
0x1.f21d88p-1,0x1.f3d2d4p-1,0x1.f55ecp-1,0x1.f6c36cp-1,0x1.f80316p-1,0x1.f9200cp-1,0x1.fa1cacp-1,0x1.fafb5cp-1,
0x1.fbbe7cp-1,0x1.fc686ep-1,0x1.fcfb8p-1,0x1.fd79f6p-1,0x1.fde5f8p-1,0x1.fe4196p-1,0x1.fe8ec4p-1,0x1.fecf52p-1,
0x1.ff04fp-1,0x1.ff312ap-1,0x1.ff556ap-1,0x1.ff72f2p-1,0x1.ff8ae6p-1,0x1.ff9e4p-1,0x1.ffade2p-1,0x1.ffba8ap-1,
0x1.ffc4dap-1,0x1.ffcd5cp-1,0x1.ffd47cp-1,0x1.ffda9ap-1,0x1.ffdffcp-1,0x1.ffe4dap-1,0x1.ffe96p-1,0x1.ffedacp-1,
0x1.fff1d6p-1,0x1.fff5ecp-1,0x1.fff9f8p-1,0x1.fffdfep-1,0x1.0001p+0,0x1.0003p+0,0x1.0004fep+0,0x1.0006f6p+0,
0x1.0008eap+0,0x1.000ad8p+0,0x1.000cbcp+0,0x1.000e96p+0,0x1.001064p+0,0x1.001226p+0,0x1.0013dap+0,0x1.00157ep+0,
0x1.001712p+0,0x1.001892p+0,0x1.001a02p+0,0x1.001b5cp+0,0x1.001ca2p+0,0x1.001dd2p+0,0x1.001eecp+0,0x1.001feep+0,
0x1.0020d8p+0,0x1.0021aap+0,0x1.002264p+0,0x1.002302p+0,0x1.00238ap+0,0x1.0023f6p+0,0x1.002448p+0,0x1.00248p+0,
0x1.0024ap+0,0x1.0024a4p+0,0x1.00249p+0,0x1.00246p+0,0x1.00241ap+0,0x1.0023b8p+0,0x1.00234p+0,0x1.0022bp+0,
0x1.002208p+0,0x1.002148p+0,0x1.002074p+0,0x1.001f88p+0,0x1.001e8ap+0,0x1.001d76p+0,0x1.001c5p+0,0x1.001b16p+0,
0x1.0019ccp+0,0x1.001872p+0,0x1.001708p+0,0x1.00158ep+0,0x1.001408p+0,0x1.001274p+0,0x1.0010d6p+0,0x1.000f2cp+0,
0x1.000d7ap+0,0x1.000bcp+0,0x1.0009fcp+0,0x1.000834p+0,0x1.000666p+0,0x1.000496p+0,0x1.0002c2p+0,0x1.0000ecp+0,
0x1.fffe2ap-1,0x1.fffa7ep-1,0x1.fff6d6p-1,0x1.fff332p-1,0x1.ffef98p-1,0x1.ffec06p-1,0x1.ffe882p-1,0x1.ffe50cp-1,
0x1.ffe1a8p-1,0x1.ffde56p-1,0x1.ffdb18p-1,0x1.ffd7f4p-1,0x1.ffd4e6p-1,0x1.ffd1f6p-1,0x1.ffcf22p-1,0x1.ffcc6cp-1,
0x1.ffc9d8p-1,0x1.ffc768p-1,0x1.ffc51ap-1,0x1.ffc2f4p-1,0x1.ffc0f6p-1,0x1.ffbf22p-1,0x1.ffbd78p-1,0x1.ffbbfap-1,
0x1.ffbaaap-1,0x1.ffb98ap-1,0x1.ffb898p-1,0x1.ffb7d8p-1,0x1.ffb748p-1,0x1.ffb6ecp-1,0x1.ffb6c2p-1,0x1.ffb6ccp-1,
0x1.ffb708p-1,0x1.ffb77ap-1,0x1.ffb81ep-1,0x1.ffb8f8p-1,0x1.ffba04p-1,0x1.ffbb44p-1,0x1.ffbcb4p-1,0x1.ffbe58p-1,
0x1.ffc02cp-1,0x1.ffc23p-1,0x1.ffc462p-1,0x1.ffc6c2p-1,0x1.ffc94ep-1,0x1.ffcc02p-1,0x1.ffceep-1,0x1.ffd1e2p-1,
0x1.ffd508p-1,0x1.ffd85p-1,0x1.ffdbb6p-1,0x1.ffdf3ap-1,0x1.ffe2d6p-1,0x1.ffe68ap-1,0x1.ffea52p-1,0x1.ffee2cp-1,
0x1.fff214p-1,0x1.fff606p-1,0x1.fffap-1,0x1.fffep-1,0x1.0001p+0,0x1.0003p+0,0x1.0004fep+0,0x1.0006f6p+0,
0x1.0008eap+0,0x1.000ad8p+0,0x1.000cbcp+0,0x1.000e96p+0,0x1.001064p+0,0x1.001226p+0,0x1.0013dap+0,0x1.00157ep+0,
0x1.001712p+0,0x1.001892p+0,0x1.001a02p+0,0x1.001b5cp+0,0x1.001ca2p+0,0x1.001dd2p+0,0x1.001eecp+0,0x1.001feep+0,
0x1.0020d8p+0,0x1.0021aap+0,0x1.002264p+0,0x1.002302p+0,0x1.00238ap+0,0x1.0023f6p+0,0x1.002448p+0,0x1.00248p+0,
0x1.0024ap+0,0x1.0024a4p+0,0x1.00249p+0,0x1.00246p+0,0x1.00241ap+0,0x1.0023b8p+0,0x1.00234p+0,0x1.0022bp+0,
0x1.002208p+0,0x1.002148p+0,0x1.002074p+0,0x1.001f88p+0,0x1.001e8ap+0,0x1.001d76p+0,0x1.001c5p+0,0x1.001b16p+0,
0x1.0019ccp+0,0x1.001872p+0,0x1.001708p+0,0x1.00158ep+0,0x1.001408p+0,0x1.001274p+0,0x1.0010d6p+0,0x1.000f2cp+0,
0x1.000d7ap+0,0x1.000bcp+0,0x1.0009fcp+0,0x1.000834p+0,0x1.000666p+0,0x1.000496p+0,0x1.0002c2p+0,0x1.0000ecp+0,
0x1.fffe2ap-1,0x1.fffa7ep-1,0x1.fff6d6p-1,0x1.fff332p-1,0x1.ffef98p-1,0x1.ffec06p-1,0x1.ffe882p-1,0x1.ffe50cp-1,
0x1.ffe1a8p-1,0x1.ffde56p-1,0x1.ffdb18p-1,0x1.ffd7f4p-1,0x1.ffd4e6p-1,0x1.ffd1f6p-1,0x1.ffcf22p-1,0x1.ffcc6cp-1,
0x1.ffc9d8p-1,0x1.ffc768p-1,0x1.ffc51ap-1,0x1.ffc2f4p-1,0x1.ffc0f6p-1,0x1.ffbf22p-1,0x1.ffbd78p-1,0x1.ffbbfap-1,
0x1.ffbaaap-1,0x1.ffb98ap-1,0x1.ffb898p-1,0x1.ffb7d8p-1,0x1.ffb748p-1,0x1.ffb6ecp-1,0x1.ffb6c2p-1,0x1.ffb6ccp-1,
0x1.ffb708p-1,0x1.ffb77ap-1,0x1.ffb81ep-1,0x1.ffb8f8p-1,0x1.ffba04p-1,0x1.ffbb44p-1,0x1.ffbcb4p-1,0x1.ffbe58p-1,
0x1.ffc02cp-1,0x1.ffc23p-1,0x1.ffc462p-1,0x1.ffc6c2p-1,0x1.ffc94ep-1,0x1.ffcc02p-1,0x1.ffceep-1,0x1.ffd1e2p-1,
0x1.ffd508p-1,0x1.ffd85p-1,0x1.ffdbb6p-1,0x1.ffdf3ap-1,0x1.ffe2d6p-1,0x1.ffe68ap-1,0x1.ffea52p-1,0x1.ffee2cp-1,
0x1.fff214p-1,0x1.fff606p-1,0x1.fffap-1,0x1.fffep-1,0x1.0001p+0,0x1.0003p+0,0x1.0004fep+0,0x1.0006f6p+0,
0x1.0008eap+0,0x1.000ad8p+0,0x1.000cbcp+0,0x1.000e96p+0,0x1.001064p+0,0x1.001226p+0,0x1.0013dap+0,0x1.00157ep+0,
0x1.001712p+0,0x1.001892p+0,0x1.001a02p+0,0x1.001b5cp+0,0x1.001ca2p+0,0x1.001dd2p+0,0x1.001eecp+0,0x1.001feep+0,
0x1.0020d8p+0,0x1.0021aap+0,0x1.002264p+0,0x1.002302p+0,0x1.00238ap+0,0x1.0023f6p+0,0x1.002448p+0,0x1.00248p+0,
0x1.0024ap+0,0x1.0024a4p+0,0x1.00249p+0,0x1.00246p+0,0x1.00241ap+0,0x1.0023b8p+0,0x1.00234p+0,0x1.0022bp+0,
0x1.002208p+0,0x1.002148p+0,0x1.002074p+0,0x1.001f88p+0,0x1.001e8ap+0,0x1.001d76p+0,0x1.001c5p+0,0x1.001b16p+0,
0x1.0019ccp+0,0x1.001872p+0,0x1.001708p+0,0x1.00158ep+0,0x1.001408p+0,0x1.001274p+0,0x1.0010d6p+0,0x1.000f2cp+0,
0x1.000d7ap+0,0x1.000bcp+0,0x1.0009fcp+0,0x1.000834p+0,0x1.000666p+0,0x1.000496p+0,0x1.0002c2p+0,0x1.0000ecp+0,
0x1.fffe2ap-1,0x1.fffa7ep-1,0x1.fff6d6p-1,0x1.fff332p-1,0x1.ffef98p-1,0x1.ffec06p-1,0x1.ffe882p-1,0x1.ffe50cp-1,
0x1.ffe1a8p-1,0x1.ffde56p-1,0x1.ffdb18p-1,0x1.ffd7f4p-1,0x1.ffd4e6p-1,0x1.ffd1f6p-1,0x1.ffcf22p-1,0x1.ffcc6cp-1,
0x1.ffc9d8p-1,0x1.ffc768p-1,0x1.ffc51ap-1,0x1.ffc2f4p-1,0x1.ffc0f6p-1,0x1.ffbf22p-1,0x1.ffbd78p-1,0x1.ffbbfap-1,
0x1.ffbaaap-1,0x1.ffb98ap-1,0x1.ffb898p-1,0x1.ffb7d8p-1,0x1.ffb748p-1,0x1.ffb6ecp-1,0x1.ffb6c2p-1,0x1.ffb6ccp-1,
0x1.ffb708p-1,0x1.ffb77ap-1,0x1.ffb81ep-1,0x1.ffb8f8p-1,0x1.ffba04p-1,0x1.ffbb44p-1,0x1.ffbcb4p-1,0x1.ffbe58p-1,
0x1.ffc02cp-1,0x1.ffc23p-1,0x1.ffc462p-1,0x1.ffc6c2p-1,0x1.ffc94ep-1,0x1.ffcc02p-1,0x1.ffceep-1,0x1.ffd1e2p-1,
0x1.ffd508p-1,0x1.ffd85p-1,0x1.ffdbb6p-1,0x1.ffdf3ap-1,0x1.ffe2d6p-1,0x1.ffe68ap-1,0x1.ffea52p-1,0x1.ffee2cp-1,
0x1.fff214p-1,0x1.fff606p-1,0x1.fffap-1,0x1.fffep-1,0x1.0001p+0,0x1.0002fcp+0,0x1.0004fp+0,0x1.0006d8p+0,
0x1.0008aap+0,0x1.000a5ep+0,0x1.000be2p+0,0x1.000d28p+0,0x1.000e14p+0,0x1.000e88p+0,0x1.000e5ep+0,0x1.000d64p+0,
0x1.000b62p+0,0x1.00080cp+0,0x1.000312p+0,0x1.fff822p-1,0x1.ffe528p-1,0x1.ffcc2cp-1,0x1.ffac04p-1,0x1.ff8356p-1,
0x1.ff50a4p-1,0x1.ff1242p-1,0x1.fec652p-1,0x1.fe6ac6p-1,0x1.fdfd6p-1,0x1.fd7ba6p-1,0x1.fce2eap-1,0x1.fc3042p-1,
0x1.fb6082p-1,0x1.fa7048p-1,0x1.f95beap-1,0x1.f81f8p-1,0x1.f6b6dep-1,0x1.f51d9ep-1,0x1.f34f16p-1,0x1.f14668p-1,
0x1.eefe82p-1,0x1.ec7226p-1,0x1.e99bfap-1,0x1.e6769p-1,0x1.e2fc76p-1,0x1.df284cp-1,0x1.daf4cep-1,0x1.d65cf4p-1,
0x1.d15bfcp-1,0x1.cbed86p-1,0x1.c60dbp-1,0x1.bfb91cp-1,0x1.b8ed16p-1,0x1.b1a79ep-1,0x1.a9e778p-1,0x1.a1ac46p-1,
0x1.98f688p-1,0x1.8fc7b2p-1,0x1.86222ep-1,0x1.7c0964p-1,0x1.7181bap-1,0x1.669094p-1,0x1.5b3c54p-1,0x1.4f8c4cp-1,
0x1.4388bep-1,0x1.373accp-1,0x1.2aac66p-1,0x1.1de83cp-1,0x1.10f9aep-1,0x1.03ecaap-1,0x1.ed9b3cp-2,0x1.d352b4p-2,
0x1.b919dcp-2,0x1.9f0b18p-2,0x1.8540dp-2,0x1.6bd52p-2,0x1.52e19ap-2,0x1.3a7ef2p-2,0x1.22c4bp-2,0x1.0bc8fp-2,
0x1.eb401ep-3,0x1.c0b8dep-3,0x1.981c6ap-3,0x1.71862cp-3,0x1.4d0c5ap-3,0x1.2abfb2p-3,0x1.0aab5cp-3,0x1.d9a9bcp-4,
0x1.a2785ep-4,0x1.6fb7dcp-4,0x1.415352p-4,0x1.172c84p-4,0x1.e239aep-5,0x1.9decd2p-5,0x1.610a7p-5,0x1.2b20ccp-5,
0x1.f76de8p-6,0x1.a49e6ep-6,0x1.5cd30ep-6,0x1.1f0b5cp-6,0x1.d49526p-7,0x1.7b364p-7,0x1.30232cp-7,0x1.e33c6cp-8,
0x1.7c0d22p-8,0x1.27b5f8p-8,0x1.c6edd4p-9,0x1.59a7ccp-9,0x1.032962p-9,0x1.7f0d8cp-10,0x1.16a6eep-10,0x1.8e6c14p-11,
0x1.17620ep-11,0x1.7f67d4p-12,0x1.00aa64p-12,0x1.4dfe6cp-13,0x1.a450ccp-14,0x1.fc15e4p-15,0x1.24279ep-15,0x1.3b091p-16,
0x1.370448p-17,0x1.0cc966p-18,0x1.6d0b0ap-20,0x1.bc08b4p-23};
static const int lim_3_5[65]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,19,21,23,25,27,29,31,33,36,39,42,45,48,51,55,59,63,67,72,77,83,89,95,101,108,116,124,133,142,152,163,174,187,200,214,229,244,262,280,299,320,343,367,392,419,449,480,};
static const float win_3_6[1560]={
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,0x0p+0,
0x1.1e2da6p-24,0x1.e07186p-23,0x1.05bf3ep-21,0x1.e30214p-21,0x1.95b7ep-20,0x1.403b2ep-19,0x1.e32fccp-19,0x1.60157ap-18,
0x1.f3058p-18,0x1.599becp-17,0x1.d58558p-17,0x1.39a6e2p-16,0x1.9cfefap-16,0x1.0c6d28p-15,0x1.58f118p-15,0x1.b6b4c4p-15,
0x1.145f62p-14,0x1.593db8p-14,0x1.abe3p-14,0x1.073c7ap-13,0x1.41b52p-13,0x1.86b3c8p-13,0x1.d7b64ap-13,0x1.1b315p-12,
0x1.5244c2p-12,0x1.92148ap-12,0x1.dbb7b8p-12,0x1.182f5ap-11,0x1.48aa3ep-11,0x1.7ffff8p-11,0x1.bef288p-11,0x1.032984p-10,
0x1.2b8124p-10,0x1.58f8a4p-10,0x1.8c10d8p-10,0x1.c5532p-10,0x1.02a8ccp-9,0x1.26539cp-9,0x1.4dfbfcp-9,0x1.79f86ep-9,
0x1.aaa404p-9,0x1.e05e58p-9,0x1.0dc5c4p-8,0x1.2e4a16p-8,0x1.51f29ep-8,0x1.78f7f6p-8,0x1.a394cep-8,0x1.d205d2p-8,
0x1.0244c6p-7,0x1.1db028p-7,0x1.3b6606p-7,0x1.5b881ap-7,0x1.7e38c6p-7,0x1.a39afcp-7,0x1.cbd22cp-7,0x1.f7022p-7,
0x1.12a772p-6,0x1.2b6e54p-6,0x1.45e7cap-6,0x1.6225dep-6,0x1.803a72p-6,0x1.a03732p-6,0x1.c22d7ep-6,0x1.e62e5ep-6,
0x1.06253p-5,0x1.1a48c6p-5,0x1.2f89a8p-5,0x1.45ef2ep-5,0x1.5d805p-5,0x1.764394p-5,0x1.903f02p-5,0x1.ab782p-5,
0x1.c7f3ep-5,0x1.e5b69cp-5,0x1.026204p-4,0x1.128f94p-4,0x1.236522p-4,0x1.34e374p-4,0x1.470aeap-4,0x1.59db7cp-4,
0x1.6d54b4p-4,0x1.8175b2p-4,0x1.963d1cp-4,0x1.aba92ap-4,0x1.c1b79ep-4,0x1.d865bep-4,0x1.efb05cp-4,0x1.03c9e8p-3,
0x1.1005fep-3,0x1.1c8a24p-3,0x1.2953d4p-3,0x1.36604ep-3,0x1.43ac96p-3,0x1.51357ep-3,0x1.5ef79ep-3,0x1.6cef6p-3,
0x1.7b18f4p-3,0x1.897064p-3,0x1.97f18cp-3,0x1.a6981cp-3,0x1.b55fa2p-3,0x1.c4438cp-3,0x1.d33f26p-3,0x1.e24da4p-3,
0x1.f16a24p-3,0x1.0047dap-2,0x1.07dcaap-2,0x1.0f70fcp-2,0x1.17024ap-2,0x1.1e8e0ep-2,0x1.2611c4p-2,0x1.2d8aecp-2,
0x1.34f71p-2,0x1.3c53cp-2,0x1.439e98p-2,0x1.4ad548p-2,0x1.51f588p-2,0x1.58fd26p-2,0x1.5fea08p-2,0x1.66ba2p-2,
0x1.6d6b88p-2,0x1.73fc6ap-2,0x1.7a6b0ap-2,0x1.80b5ccp-2,0x1.86db36p-2,0x1.8cd9e8p-2,0x1.92b0a6p-2,0x1.985e54p-2,
0x1.9de1f8p-2,0x1.a33acp-2,0x1.a867f8p-2,0x1.ad6912p-2,0x1.b23da2p-2,0x1.b6e562p-2,0x1.bb6032p-2,0x1.bfae0ep-2,
0x1.c3cf1cp-2,0x1.c7c3ap-2,0x1.cb8c02p-2,0x1.cf28c6p-2,0x1.d29a96p-2,0x1.d5e234p-2,0x1.d90082p-2,0x1.dbf67cp-2,
0x1.dec53cp-2,0x1.e16deep-2,0x1.e3f1dap-2,0x1.e6525ep-2,0x1.e890e6p-2,0x1.eaaef6p-2,0x1.ecae2p-2,0x1.ee9002p-2,
0x1.f0564ep-2,0x1.f202b8p-2,0x1.f39704p-2,0x1.f514fap-2,0x1.f67e6ep-2,0x1.f7d532p-2,0x1.f91b2p-2,0x1.fa521p-2,
0x1.fb7bdep-2,0x1.fc9a66p-2,0x1.fdaf7ep-2,0x1.febcfcp-2,0x1.ffc4bp-2,0x1.006434p-1,0x1.00e4f4p-1,0x1.016578p-1,
0x1.01e69ep-1,0x1.02693cp-1,0x1.02ee26p-1,0x1.03762cp-1,0x1.040218p-1,0x1.0492acp-1,0x1.0528acp-1,0x1.05c4dp-1,
0x1.0667cap-1,0x1.07124cp-1,0x1.07c4fep-1,0x1.08808p-1,0x1.09456ep-1,0x1.0a145cp-1,0x1.0aeddcp-1,0x1.0bd272p-1,
0x1.0cc29ep-1,0x1.0dbedcp-1,0x1.0ec79cp-1,0x1.0fdd4ap-1,0x1.110046p-1,0x1.1230ecp-1,0x1.136f9p-1,0x1.14bc7ap-1,
0x1.1617fp-1,0x1.17822ap-1,0x1.18fb5ap-1,0x1.1a83acp-1,0x1.1c1b3cp-1,0x1.1dc224p-1,0x1.1f7872p-1,0x1.213e2ep-1,
0x1.231352p-1,0x1.24f7d6p-1,0x1.26eba4p-1,0x1.28eeap-1,0x1.2b00a2p-1,0x1.2d217cp-1,0x1.2f50fap-1,0x1.318ed8p-1,
0x1.33dad4p-1,0x1.36349ap-1,0x1.389bd8p-1,0x1.3b102cp-1,0x1.3d9134p-1,0x1.401e82p-1,0x1.42b7a4p-1,0x1.455c22p-1,
0x1.480b7cp-1,0x1.4ac52ep-1,0x1.4d88b2p-1,0x1.505576p-1,0x1.532aecp-1,0x1.56087cp-1,0x1.58ed8ep-1,0x1.5bd984p-1,
0x1.5ecbcp-1,0x1.61c3ap-1,0x1.64c084p-1,0x1.67c1c2p-1,0x1.6ac6bap-1,0x1.6dcec4p-1,0x1.70d93ap-1,0x1.73e574p-1,
0x1.76f2cep-1,0x1.7a00a4p-1,0x1.7d0e52p-1,0x1.801b36p-1,0x1.8326b2p-1,0x1.863024p-1,0x1.8936f6p-1,0x1.8c3a8cp-1,
0x1.8f3a52p-1,0x1.9235b6p-1,0x1.952c2ap-1,0x1.981d22p-1,0x1.9b081ap-1,0x1.9dec8cp-1,0x1.a0c9fcp-1,0x1.a39feep-1,
0x1.a66deep-1,0x1.a9338cp-1,0x1.abf05ap-1,0x1.aea3f4p-1,0x1.b14df6p-1,0x1.b3ee02p-1,0x1.b683cp-1,0x1.b90eep-1,
0x1.bb8f1p-1,0x1.be040ap-1,0x1.c06d88p-1,0x1.c2cb4cp-1,0x1.c51d1ep-1,0x1.c762c6p-1,0x1.c99c16p-1,0x1.cbc8e4p-1,
0x1.cde908p-1,0x1.cffc62p-1,0x1.d202d6p-1,0x1.d3fc4ap-1,0x1.d5e8acp-1,0x1.d7c7eep-1,0x1.d99a06p-1,0x1.db5efp-1,
0x1.dd16a6p-1,0x1.dec12ep-1,0x1.e05e9p-1,0x1.e1eed6p-1,0x1.e3721p-1,0x1.e4e85p-1,0x1.e651bp-1,0x1.e7ae4ap-1,
0x1.e8fe3cp-1,0x1.ea41a8p-1,0x1.eb78b6p-1,0x1.eca38ep-1,0x1.edc25ep-1,0x1.eed556p-1,0x1.efdca6p-1,0x1.f0d888p-1,
0x1.f1c932p-1,0x1.f2aeep-1,0x1.f389dp-1,0x1.f45a42p-1,0x1.f52078p-1,0x1.f5dcb8p-1,0x1.f68f44p-1,0x1.f73866p-1,
0x1.f7d866p-1,0x1.f86f8ep-1,0x1.f8fe2ap-1,0x1.f98484p-1,0x1.fa02eap-1,0x1.fa79a6p-1,0x1.fae906p-1,0x1.fb5156p-1,
0x1.fbb2e2p-1,0x1.fc0df6p-1,0x1.fc62dep-1,0x1.fcb1e2p-1,0x1.fcfb4ep-1,0x1.fd3f68p-1,0x1.fd7e78p-1,0x1.fdb8c2p-1,
0x1.fdee8ap-1,0x1.fe2012p-1,0x1.fe4d9cp-1,0x1.fe7764p-1,0x1.fe9da8p-1,0x1.fec0ap-1,0x1.fee086p-1,0x1.fefd92p-1,
0x1.ff17f2p-1,0x1.ff2fdep-1,0x1.ff458p-1,0x1.ff590ap-1,0x1.ff6aa4p-1,0x1.ff7a76p-1,0x1.ff88a8p-1,0x1.ff955cp-1,
0x1.ffa0b8p-1,0x1.ffaadap-1,0x1.ffb3dep-1,0x1.ffbbe2p-1,0x1.ffc2fep-1,0x1.ffc94ep-1,0x1.ffcee4p-1,0x1.ffd3d6p-1,
0x1.ffd836p-1,0x1.ffdc18p-1,0x1.ffdf88p-1,0x1.ffe296p-1,0x1.ffe54ep-1,0x1.ffe7bep-1,0x1.ffe9ecp-1,0x1.ffebe4p-1,
0x1.ffedbp-1,0x1.ffef54p-1,0x1.fff0d6p-1,0x1.fff23ep-1,0x1.fff39p-1,0x1.fff4cep-1,0x1.fff5fep-1,0x1.fff724p-1,
0x1.fff84p-1,0x1.fff954p-1,0x1.fffa62p-1,0x1.fffb6cp-1,0x1.fffc74p-1,0x1.fffd7ap-1,0x1.fffe7cp-1,0x1.ffff7ep-1,
0x1.00004p+0,0x1.0000cp+0,0x1.00014p+0,0x1.0001cp+0,0x1.00024p+0,0x1.0002bep+0,0x1.00033cp+0,0x1.0003bap+0,
0x1.000438p+0,0x1.0004b4p+0,0x1.00052ep+0,0x1.0005a8p+0,0x1.000622p+0,0x1.00069ap+0,0x1.00071p+0,0x1.000786p+0,
0x1.0007f8p+0,0x1.00086ap+0,0x1.0008dcp+0,0x1.00094ap+0,0x1.0009b8p+0,0x1.000a22p+0,0x1.000a8cp+0,0x1.000af2p+0,
0x1.000b58p+0,0x1.000bbap+0,0x1.000c1ap+0,0x1.000c78p+0,0x1.000cd4p+0,0x1.000d2cp+0,0x1.000d84p+0,0x1.000dd8p+0,
0x1.000e2ap+0,0x1.000e78p+0,0x1.000ec4p+0,0x1.000f0ep+0,0x1.000f54p+0,0x1.000f98p+0,0x1.000fd8p+0,0x1.001016p+0,
0x1.00105p+0,0x1.001088p+0,0x1.0010bcp+0,0x1.0010eep+0,0x1.00111cp+0,0x1.001146p+0,0x1.00116ep+0,0x1.001194p+0,
0x1.0011b4p+0,0x1.0011d4p+0,0x1.0011eep+0,0x1.001206p+0,0x1.00121ap+0,0x1.00122cp+0,0x1.00123ap+0,0x1.001246p+0,
0x1.00124cp+0,0x1.001252p+0,0x1.001252p+0,0x1.00125p+0,0x1.00124cp+0,0x1.001242p+0,0x1.001238p+0,0x1.001228p+0,
0x1.001216p+0,0x1.001202p+0,0x1.0011eap+0,0x1.0011cep+0,0x1.0011bp+0,0x1.00118ep+0,0x1.00116ap+0,0x1.001144p+0,
0x1.00111ap+0,0x1.0010ecp+0,0x1.0010bcp+0,0x1.00108ap+0,0x1.001056p+0,0x1.00101ep+0,0x1.000fe2p+0,0x1.000fa6p+0,
0x1.000f66p+0,0x1.000f22p+0,0x1.000edep+0,0x1.000e96p+0,0x1.000e4ep+0,0x1.000e02p+0,0x1.000db4p+0,0x1.000d62p+0,
0x1.000d1p+0,0x1.000cbcp+0,0x1.000c64p+0,0x1.000c0cp+0,0x1.000bb2p+0,0x1.000b56p+0,0x1.000af8p+0,0x1.000a98p+0,
0x1.000a36p+0,0x1.0009d2p+0,0x1.00096ep+0,0x1.000908p+0,0x1.0008ap+0,0x1.000836p+0,0x1.0007ccp+0,0x1.00076p+0,
0x1.0006f4p+0,0x1.000686p+0,0x1.000618p+0,0x1.0005a8p+0,0x1.000538p+0,0x1.0004c6p+0,0x1.000454p+0,0x1.0003ep+0,
0x1.00036ep+0,0x1.0002fap+0,0x1.000286p+0,0x1.00021p+0,0x1.00019cp+0,0x1.000126p+0,0x1.0000bp+0,0x1.00003ap+0,
0x1.ffff8ap-1,0x1.fffeap-1,0x1.fffdb4p-1,0x1.fffccap-1,0x1.fffbep-1,0x1.fffaf6p-1,0x1.fffa0ep-1,0x1.fff926p-1,
0x1.fff83ep-1,0x1.fff758p-1,0x1.fff674p-1,0x1.fff592p-1,0x1.fff4bp-1,0x1.fff3d2p-1,0x1.fff2f4p-1,0x1.fff218p-1,
0x1.fff14p-1,0x1.fff068p-1,0x1.ffef94p-1,0x1.ffeec2p-1,0x1.ffedf2p-1,0x1.ffed26p-1,0x1.ffec5cp-1,0x1.ffeb96p-1,
0x1.ffead2p-1,0x1.ffea12p-1,0x1.ffe956p-1,0x1.ffe89ep-1,0x1.ffe7e8p-1,0x1.ffe738p-1,0x1.ffe68ap-1,0x1.ffe5ep-1,
0x1.ffe53cp-1,0x1.ffe49cp-1,0x1.ffe3fep-1,0x1.ffe368p-1,0x1.ffe2d4p-1,0x1.ffe246p-1,0x1.ffe1bcp-1,0x1.ffe138p-1,
0x1.ffe0b8p-1,0x1.ffe03ep-1,0x1.ffdfc8p-1,0x1.ffdf58p-1,0x1.ffdeeep-1,0x1.ffde88p-1,0x1.ffde2ap-1,0x1.ffdddp-1,
0x1.ffdd7cp-1,0x1.ffdd2ep-1,0x1.ffdce4p-1,0x1.ffdca2p-1,0x1.ffdc66p-1,0x1.ffdc3p-1,0x1.ffdcp-1,0x1.ffdbd6p-1,
0x1.ffdbb2p-1,0x1.ffdb94p-1,0x1.ffdb7cp-1,0x1.ffdb6cp-1,0x1.ffdb62p-1,0x1.ffdb5ep-1,0x1.ffdb6p-1,0x1.ffdb68p-1,
0x1.ffdb78p-1,0x1.ffdb8ep-1,0x1.ffdbaap-1,0x1.ffdbccp-1,0x1.ffdbf6p-1,0x1.ffdc26p-1,0x1.ffdc5cp-1,0x1.ffdc98p-1,
0x1.ffdcdcp-1,0x1.ffdd26p-1,0x1.ffdd76p-1,0x1.ffddccp-1,0x1.ffde28p-1,0x1.ffde8ap-1,0x1.ffdef4p-1,0x1.ffdf62p-1,
0x1.ffdfd8p-1,0x1.ffe052p-1,0x1.ffe0d4p-1,0x1.ffe15ap-1,0x1.ffe1e8p-1,0x1.ffe27ap-1,0x1.ffe312p-1,0x1.ffe3bp-1,
0x1.ffe452p-1,0x1.ffe4fap-1,0x1.ffe5a8p-1,0x1.ffe65ap-1,0x1.ffe71p-1,0x1.ffe7cep-1,0x1.ffe88ep-1,0x1.ffe952p-1,
0x1.ffea1cp-1,0x1.ffeaeap-1,0x1.ffebbcp-1,0x1.ffec92p-1,0x1.ffed6cp-1,0x1.ffee4ap-1,0x1.ffef2ap-1,0x1.fff00ep-1,
0x1.fff0f6p-1,0x1.fff1ep-1,0x1.fff2cep-1,0x1.fff3bep-1,0x1.fff4bp-1,0x1.fff5a4p-1,0x1.fff69ap-1,0x1.fff792p-1,
0x1.fff88cp-1,0x1.fff988p-1,0x1.fffa84p-1,0x1.fffb82p-1,0x1.fffc8p-1,0x1.fffd8p-1,0x1.fffe8p-1,0x1.ffff8p-1,
0x1.00004p+0,0x1.0000cp+0,0x1.00014p+0,0x1.0001cp+0,0x1.00024p+0,0x1.0002bep+0,0x1.00033cp+0,0x1.0003bap+0,
0x1.000438p+0,0x1.0004b4p+0,0x1.00052ep+0,0x1.0005a8p+0,0x1.000622p+0,0x1.00069ap+0,0x1.00071p+0,0x1.000786p+0,
0x1.0007f8p+0,0x1.00086ap+0,0x1.0008dcp+0,0x1.00094ap+0,0x1.0009b8p+0,0x1.000a22p+0,0x1.000a8cp+0,0x1.000af2p+0,
0x1.000b58p+0,0x1.000bbap+0,0x1.000c1ap+0,0x1.000c78p+0,0x1.000cd4p+0,0x1.000d2cp+0,0x1.000d84p+0,0x1.000dd8p+0,
0x1.000e2ap+0,0x1.000e78p+0,0x1.000ec4p+0,0x1.000f0ep+0,0x1.000f54p+0,0x1.000f98p+0,0x1.000fd8p+0,0x1.001016p+0,
0x1.00105p+0,0x1.001088p+0,0x1.0010bcp+0,0x1.0010eep+0,0x1.00111cp+0,0x1.001146p+0,0x1.00116ep+0,0x1.001194p+0,
0x1.0011b4p+0,0x1.0011d4p+0,0x1.0011eep+0,0x1.001206p+0,0x1.00121ap+0,0x1.00122cp+0,0x1.00123ap+0,0x1.001246p+0,
0x1.00124cp+0,0x1.001252p+0,0x1.001252p+0,0x1.00125p+0,0x1.00124cp+0,0x1.001242p+0,0x1.001238p+0,0x1.001228p+0,
0x1.001216p+0,0x1.001202p+0,0x1.0011eap+0,0x1.0011cep+0,0x1.0011bp+0,0x1.00118ep+0,0x1.00116ap+0,0x1.001144p+0,
0x1.00111ap+0,0x1.0010ecp+0,0x1.0010bcp+0,0x1.00108ap+0,0x1.001056p+0,0x1.00101ep+0,0x1.000fe2p+0,0x1.000fa6p+0,
0x1.000f66p+0,0x1.000f22p+0,0x1.000edep+0,0x1.000e96p+0,0x1.000e4ep+0,0x1.000e02p+0,0x1.000db4p+0,0x1.000d62p+0,
0x1.000d1p+0,0x1.000cbcp+0,0x1.000c64p+0,0x1.000c0cp+0,0x1.000bb2p+0,0x1.000b56p+0,0x1.000af8p+0,0x1.000a98p+0,
0x1.000a36p+0,0x1.0009d2p+0,0x1.00096ep+0,0x1.000908p+0,0x1.0008ap+0,0x1.000836p+0,0x1.0007ccp+0,0x1.00076p+0,
0x1.0006f4p+0,0x1.000686p+0,0x1.000618p+0,0x1.0005a8p+0,0x1.000538p+0,0x1.0004c6p+0,0x1.000454p+0,0x1.0003ep+0,
0x1.00036ep+0,0x1.0002fap+0,0x1.000286p+0,0x1.00021p+0,0x1.00019cp+0,0x1.000126p+0,0x1.0000bp+0,0x1.00003ap+0,
0x1.ffff8ap-1,0x1.fffeap-1,0x1.fffdb4p-1,0x1.fffccap-1,0x1.fffbep-1,0x1.fffaf6p-1,0x1.fffa0ep-1,0x1.fff926p-1,
0x1.fff83ep-1,0x1.fff758p-1,0x1.fff674p-1,0x1.fff592p-1,0x1.fff4bp-1,0x1.fff3d2p-1,0x1.fff2f4p-1,0x1.fff218p-1,
0x1.fff14p-1,0x1.fff068p-1,0x1.ffef94p-1,0x1.ffeec2p-1,0x1.ffedf2p-1,0x1.ffed26p-1,0x1.ffec5cp-1,0x1.ffeb96p-1,
0x1.ffead2p-1,0x1.ffea12p-1,0x1.ffe956p-1,0x1.ffe89ep-1,0x1.ffe7e8p-1,0x1.ffe738p-1,0x1.ffe68ap-1,0x1.ffe5ep-1,
0x1.ffe53cp-1,0x1.ffe49cp-1,0x1.ffe3fep-1,0x1.ffe368p-1,0x1.ffe2d4p-1,0x1.ffe246p-1,0x1.ffe1bcp-1,0x1.ffe138p-1,
0x1.ffe0b8p-1,0x1.ffe03ep-1,0x1.ffdfc8p-1,0x1.ffdf58p-1,0x1.ffdeeep-1,0x1.ffde88p-1,0x1.ffde2ap-1,0x1.ffdddp-1,
0x1.ffdd7cp-1,0x1.ffdd2ep-1,0x1.ffdce4p-1,0x1.ffdca2p-1,0x1.ffdc66p-1,0x1.ffdc3p-1,0x1.ffdcp-1,0x1.ffdbd6p-1,
0x1.ffdbb2p-1,0x1.ffdb94p-1,0x1.ffdb7cp-1,0x1.ffdb6cp-1,0x1.ffdb62p-1,0x1.ffdb5ep-1,0x1.ffdb6p-1,0x1.ffdb68p-1,
0x1.ffdb78p-1,0x1.ffdb8ep-1,0x1.ffdbaap-1,0x1.ffdbccp-1,0x1.ffdbf6p-1,0x1.ffdc26p-1,0x1.ffdc5cp-1,0x1.ffdc98p-1,
0x1.ffdcdcp-1,0x1.ffdd26p-1,0x1.ffdd76p-1,0x1.ffddccp-1,0x1.ffde28p-1,0x1.ffde8ap-1,0x1.ffdef4p-1,0x1.ffdf62p-1,
0x1.ffdfd8p-1,0x1.ffe052p-1,0x1.ffe0d4p-1,0x1.ffe15ap-1,0x1.ffe1e8p-1,0x1.ffe27ap-1,0x1.ffe312p-1,0x1.ffe3bp-1,
0x1.ffe452p-1,0x1.ffe4fap-1,0x1.ffe5a8p-1,0x1.ffe65ap-1,0x1.ffe71p-1,0x1.ffe7cep-1,0x1.ffe88ep-1,0x1.ffe952p-1,
0x1.ffea1cp-1,0x1.ffeaeap-1,0x1.ffebbcp-1,0x1.ffec92p-1,0x1.ffed6cp-1,0x1.ffee4ap-1,0x1.ffef2ap-1,0x1.fff00ep-1,
0x1.fff0f6p-1,0x1.fff1ep-1,0x1.fff2cep-1,0x1.fff3bep-1,0x1.fff4bp-1,0x1.fff5a4p-1,0x1.fff69ap-1,0x1.fff792p-1,
0x1.fff88cp-1,0x1.fff988p-1,0x1.fffa84p-1,0x1.fffb82p-1,0x1.fffc8p-1,0x1.fffd8p-1,0x1.fffe8p-1,0x1.ffff8p-1,
0x1.00004p+0,0x1.0000cp+0,0x1.00014p+0,0x1.0001cp+0,0x1.00024p+0,0x1.0002bep+0,0x1.00033cp+0,0x1.0003bap+0,
0x1.000438p+0,0x1.0004b4p+0,0x1.00052ep+0,0x1.0005a8p+0,0x1.000622p+0,0x1.00069ap+0,0x1.00071p+0,0x1.000786p+0,
0x1.0007f8p+0,0x1.00086ap+0,0x1.0008dcp+0,0x1.00094ap+0,0x1.0009b8p+0,0x1.000a22p+0,0x1.000a8cp+0,0x1.000af2p+0,
0x1.000b58p+0,0x1.000bbap+0,0x1.000c1ap+0,0x1.000c78p+0,0x1.000cd4p+0,0x1.000d2cp+0,0x1.000d84p+0,0x1.000dd8p+0,
0x1.000e2ap+0,0x1.000e78p+0,0x1.000ec4p+0,0x1.000f0ep+0,0x1.000f54p+0,0x1.000f98p+0,0x1.000fd8p+0,0x1.001016p+0,
0x1.00105p+0,0x1.001088p+0,0x1.0010bcp+0,0x1.0010eep+0,0x1.00111cp+0,0x1.001146p+0,0x1.00116ep+0,0x1.001194p+0,
0x1.0011b4p+0,0x1.0011d4p+0,0x1.0011eep+0,0x1.001206p+0,0x1.00121ap+0,0x1.00122cp+0,0x1.00123ap+0,0x1.001246p+0,
0x1.00124cp+0,0x1.001252p+0,0x1.001252p+0,0x1.00125p+0,0x1.00124cp+0,0x1.001242p+0,0x1.001238p+0,0x1.001228p+0,
0x1.001216p+0,0x1.001202p+0,0x1.0011eap+0,0x1.0011cep+0,0x1.0011bp+0,0x1.00118ep+0,0x1.00116ap+0,0x1.001144p+0,
0x1.00111ap+0,0x1.0010ecp+0,0x1.0010bcp+0,0x1.00108ap+0,0x1.001056p+0,0x1.00101ep+0,0x1.000fe2p+0,0x1.000fa6p+0,
0x1.000f66p+0,0x1.000f22p+0,0x1.000edep+0,0x1.000e96p+0,0x1.000e4ep+0,0x1.000e02p+0,0x1.000db4p+0,0x1.000d62p+0,
0x1.000d1p+0,0x1.000cbcp+0,0x1.000c64p+0,0x1.000c0cp+0,0x1.000bb2p+0,0x1.000b56p+0,0x1.000af8p+0,0x1.000a98p+0,
0x1.000a36p+0,0x1.0009d2p+0,0x1.00096ep+0,0x1.000908p+0,0x1.0008ap+0,0x1.000836p+0,0x1.0007ccp+0,0x1.00076p+0,
0x1.0006f4p+0,0x1.000686p+0,0x1.000618p+0,0x1.0005a8p+0,0x1.000538p+0,0x1.0004c6p+0,0x1.000454p+0,0x1.0003ep+0,
0x1.00036ep+0,0x1.0002fap+0,0x1.000286p+0,0x1.00021p+0,0x1.00019cp+0,0x1.000126p+0,0x1.0000bp+0,0x1.00003ap+0,
0x1.ffff8ap-1,0x1.fffeap-1,0x1.fffdb4p-1,0x1.fffccap-1,0x1.fffbep-1,0x1.fffaf6p-1,0x1.fffa0ep-1,0x1.fff926p-1,
0x1.fff83ep-1,0x1.fff758p-1,0x1.fff674p-1,0x1.fff592p-1,0x1.fff4bp-1,0x1.fff3d2p-1,0x1.fff2f4p-1,0x1.fff218p-1,
0x1.fff14p-1,0x1.fff068p-1,0x1.ffef94p-1,0x1.ffeec2p-1,0x1.ffedf2p-1,0x1.ffed26p-1,0x1.ffec5cp-1,0x1.ffeb96p-1,
0x1.ffead2p-1,0x1.ffea12p-1,0x1.ffe956p-1,0x1.ffe89ep-1,0x1.ffe7e8p-1,0x1.ffe738p-1,0x1.ffe68ap-1,0x1.ffe5ep-1,
0x1.ffe53cp-1,0x1.ffe49cp-1,0x1.ffe3fep-1,0x1.ffe368p-1,0x1.ffe2d4p-1,0x1.ffe246p-1,0x1.ffe1bcp-1,0x1.ffe138p-1,
0x1.ffe0b8p-1,0x1.ffe03ep-1,0x1.ffdfc8p-1,0x1.ffdf58p-1,0x1.ffdeeep-1,0x1.ffde88p-1,0x1.ffde2ap-1,0x1.ffdddp-1,
0x1.ffdd7cp-1,0x1.ffdd2ep-1,0x1.ffdce4p-1,0x1.ffdca2p-1,0x1.ffdc66p-1,0x1.ffdc3p-1,0x1.ffdcp-1,0x1.ffdbd6p-1,
0x1.ffdbb2p-1,0x1.ffdb94p-1,0x1.ffdb7cp-1,0x1.ffdb6cp-1,0x1.ffdb62p-1,0x1.ffdb5ep-1,0x1.ffdb6p-1,0x1.ffdb68p-1,
0x1.ffdb78p-1,0x1.ffdb8ep-1,0x1.ffdbaap-1,0x1.ffdbccp-1,0x1.ffdbf6p-1,0x1.ffdc26p-1,0x1.ffdc5cp-1,0x1.ffdc98p-1,
0x1.ffdcdcp-1,0x1.ffdd26p-1,0x1.ffdd76p-1,0x1.ffddccp-1,0x1.ffde28p-1,0x1.ffde8ap-1,0x1.ffdef4p-1,0x1.ffdf62p-1,
0x1.ffdfd8p-1,0x1.ffe052p-1,0x1.ffe0d4p-1,0x1.ffe15ap-1,0x1.ffe1e8p-1,0x1.ffe27ap-1,0x1.ffe312p-1,0x1.ffe3bp-1,
0x1.ffe452p-1,0x1.ffe4fap-1,0x1.ffe5a8p-1,0x1.ffe65ap-1,0x1.ffe71p-1,0x1.ffe7cep-1,0x1.ffe88ep-1,0x1.ffe952p-1,
0x1.ffea1cp-1,0x1.ffeaeap-1,0x1.ffebbcp-1,0x1.ffec92p-1,0x1.ffed6cp-1,0x1.ffee4ap-1,0x1.ffef2ap-1,0x1.fff00ep-1,
0x1.fff0f6p-1,0x1.fff1ep-1,0x1.fff2cep-1,0x1.fff3bep-1,0x1.fff4bp-1,0x1.fff5a4p-1,0x1.fff69ap-1,0x1.fff792p-1,
0x1.fff88cp-1,0x1.fff988p-1,0x1.fffa84p-1,0x1.fffb82p-1,0x1.fffc8p-1,0x1.fffd8p-1,0x1.fffe8p-1,0x1.ffff8p-1,
0x1.00004p+0,0x1.0000bep+0,0x1.00013cp+0,0x1.0001bap+0,0x1.000234p+0,0x1.0002acp+0,0x1.000322p+0,0x1.000394p+0,
0x1.0004p+0,0x1.000466p+0,0x1.0004c4p+0,0x1.000518p+0,0x1.000562p+0,0x1.00059ep+0,0x1.0005cap+0,0x1.0005e2p+0,
0x1.0005e4p+0,0x1.0005ccp+0,0x1.000594p+0,0x1.00053ap+0,0x1.0004b8p+0,0x1.000406p+0,0x1.00032p+0,0x1.0001fcp+0,
0x1.000096p+0,0x1.fffdc2p-1,0x1.fff9aap-1,0x1.fff4dp-1,0x1.ffef1cp-1,0x1.ffe876p-1,0x1.ffe0c4p-1,0x1.ffd7e8p-1,
0x1.ffcdc4p-1,0x1.ffc238p-1,0x1.ffb51ep-1,0x1.ffa654p-1,0x1.ff95aep-1,0x1.ff8304p-1,0x1.ff6e2ap-1,0x1.ff56ecp-1,
0x1.ff3d1ap-1,0x1.ff207cp-1,0x1.ff00dep-1,0x1.fede02p-1,0x1.feb7aap-1,0x1.fe8d92p-1,0x1.fe5f7ap-1,0x1.fe2d16p-1,
0x1.fdf61cp-1,0x1.fdba3ep-1,0x1.fd7928p-1,0x1.fd3286p-1,0x1.fce5fcp-1,0x1.fc933p-1,0x1.fc39bep-1,0x1.fbd942p-1,
0x1.fb7154p-1,0x1.fb0186p-1,0x1.fa8966p-1,0x1.fa0882p-1,0x1.f97e6p-1,0x1.f8ea82p-1,0x1.f84c68p-1,0x1.f7a38cp-1,
0x1.f6ef64p-1,0x1.f62f64p-1,0x1.f562f8p-1,0x1.f4899p-1,0x1.f3a29p-1,0x1.f2ad5ap-1,0x1.f1a954p-1,0x1.f095d6p-1,
0x1.ef724p-1,0x1.ee3de4p-1,0x1.ecf81ep-1,0x1.eba04p-1,0x1.ea359ap-1,0x1.e8b784p-1,0x1.e7254ap-1,0x1.e57e4p-1,
0x1.e3c1bap-1,0x1.e1ef06p-1,0x1.e0057ep-1,0x1.de0478p-1,0x1.dbeb4ep-1,0x1.d9b96p-1,0x1.d76e0cp-1,0x1.d508cp-1,
0x1.d288e4p-1,0x1.cfedeep-1,0x1.cd3758p-1,0x1.ca64a8p-1,0x1.c77566p-1,0x1.c46926p-1,0x1.c13f88p-1,0x1.bdf836p-1,
0x1.ba92e2p-1,0x1.b70f4ap-1,0x1.b36d3ep-1,0x1.afac94p-1,0x1.abcd32p-1,0x1.a7cf0cp-1,0x1.a3b222p-1,0x1.9f7686p-1,
0x1.9b1c58p-1,0x1.96a3c4p-1,0x1.920d08p-1,0x1.8d587p-1,0x1.88865cp-1,0x1.839736p-1,0x1.7e8b7cp-1,0x1.7963bap-1,
0x1.74208ep-1,0x1.6ec2a2p-1,0x1.694ab6p-1,0x1.63b992p-1,0x1.5e1012p-1,0x1.584f24p-1,0x1.5277bep-1,0x1.4c8aeap-1,
0x1.4689bcp-1,0x1.40755ap-1,0x1.3a4ef6p-1,0x1.3417ccp-1,0x1.2dd128p-1,0x1.277c6p-1,0x1.211ad6p-1,0x1.1aadf4p-1,
0x1.14373p-1,0x1.0db808p-1,0x1.073202p-1,0x1.00a6aep-1,0x1.f42f3cp-2,0x1.e70cdcp-2,0x1.d9e974p-2,0x1.ccc84cp-2,
0x1.bfacaep-2,0x1.b299e4p-2,0x1.a5934p-2,0x1.989c0cp-2,0x1.8bb792p-2,0x1.7ee91ap-2,0x1.7233dcp-2,0x1.659b0cp-2,
0x1.5921dp-2,0x1.4ccb4p-2,0x1.409a6p-2,0x1.349224p-2,0x1.28b564p-2,0x1.1d06e8p-2,0x1.118956p-2,0x1.063f3cp-2,
0x1.f6560ep-3,0x1.e09e0ap-3,0x1.cb5abcp-3,0x1.b6903p-3,0x1.a24224p-3,0x1.8e7406p-3,0x1.7b28f2p-3,0x1.6863bp-3,
0x1.5626bp-3,0x1.44740cp-3,0x1.334d84p-3,0x1.22b47cp-3,0x1.12aap-3,0x1.032ecp-3,0x1.e8862cp-4,0x1.cbcep-4,
0x1.b0344ep-4,0x1.95b7cp-4,0x1.7c5656p-4,0x1.640d72p-4,0x1.4cd9e4p-4,0x1.36b7ep-4,0x1.21a314p-4,0x1.0d96aep-4,
0x1.f51ac4p-5,0x1.d102dep-5,0x1.aed968p-5,0x1.8e915cp-5,0x1.701d16p-5,0x1.536e58p-5,0x1.38766cp-5,0x1.1f2634p-5,
0x1.076e36p-5,0x1.e27d76p-6,0x1.b90fb6p-6,0x1.927326p-6,0x1.6e87a6p-6,0x1.4d2d24p-6,0x1.2e43bap-6,0x1.11abcap-6,
0x1.ee8c3ep-7,0x1.bde806p-7,0x1.912eacp-7,0x1.682552p-7,0x1.429294p-7,0x1.203ebcp-7,0x1.00f3cap-7,0x1.c8fb48p-8,
0x1.955438p-8,0x1.66920cp-8,0x1.3c588ep-8,0x1.164fb6p-8,0x1.e84782p-9,0x1.ab0a4cp-9,0x1.745148p-9,0x1.438e64p-9,
0x1.183beap-9,0x1.e3b8c4p-10,0x1.9ff4c6p-10,0x1.6450b8p-10,0x1.3000c8p-10,0x1.0247e2p-10,0x1.b4ee58p-11,0x1.6fdafp-11,
0x1.342d46p-11,0x1.00d5fap-11,0x1.a9ba92p-12,0x1.5ec37ap-12,0x1.1f2dep-12,0x1.d310cep-13,0x1.790d4cp-13,0x1.2dfd2ap-13,
0x1.df985cp-14,0x1.79424cp-14,0x1.25b268p-14,0x1.c40d2cp-15,0x1.576f88p-15,0x1.01232ep-15,0x1.7aaa66p-16,0x1.11732cp-16,
0x1.81f53p-17,0x1.08e4bp-17,0x1.5f2df8p-18,0x1.bcff38p-19,0x1.08eaeap-19,0x1.1f2678p-20,0x1.078d86p-21,0x1.39fbaap-23};
static const int lim_3_6[65]={0,1,2,3,4,5,6,7,8,9,10,11,12,14,16,18,20,22,24,26,28,30,33,36,39,42,46,50,54,59,64,69,75,82,89,96,104,113,122,132,143,155,168,181,196,213,230,249,270,292,316,342,371,401,434,470,509,551,596,646,699,757,819,887,960,};
static const float *const MDCT_WIN[4][7]={{win_0_0,win_0_1,win_0_2,win_0_3,win_0_4,win_0_5,win_0_6,},
{win_1_0,win_1_1,win_1_2,win_1_3,win_1_4,win_1_5,win_1_6,},
{win_2_0,win_2_1,win_2_2,win_2_3,win_2_4,nullptr,nullptr,},
{win_3_0,win_3_1,win_3_2,win_3_3,win_3_4,win_3_5,win_3_6,},
};
static const int *const BAND_LIM[4][7]={{lim_0_0,lim_0_1,lim_0_2,lim_0_3,lim_0_4,lim_0_5,lim_0_6,},
{lim_1_0,lim_1_1,lim_1_2,lim_1_3,lim_1_4,lim_1_5,lim_1_6,},
{lim_2_0,lim_2_1,lim_2_2,lim_2_3,lim_2_4,nullptr,nullptr,},
{lim_3_0,lim_3_1,lim_3_2,lim_3_3,lim_3_4,lim_3_5,lim_3_6,},
};
static const int NUM_BANDS[4][7]={{20,35,40,43,44,45,49,},{39,50,52,54,55,55,58,},{60,64,64,64,64,0,0,},{64,64,64,64,64,64,64,},};
static const float SNS_LFCB[32][8]={{0x1.21a488p+1,0x1.a06a56p-1,-0x1.0f7586p-1,-0x1.5b4d4ep+0,-0x1.997a42p+0,-0x1.70e492p+0,-0x1.24d128p+0,-0x1.82aa12p-1},
{0x1.78fb28p+1,0x1.34a9d8p+1,0x1.ebc0c6p-1,-0x1.c5dd2ap-2,-0x1.3aa8aap+0,-0x1.8e4f7cp+0,-0x1.7f33f6p+0,-0x1.1ded26p+0},
{-0x1.17d25cp+1,-0x1.f8b5ap+0,-0x1.c98508p+0,-0x1.eb2d3cp+0,-0x1.cb4302p+0,-0x1.5b7d86p+0,-0x1.692ffep-1,-0x1.87b822p-5},
{0x1.632b1ap-1,0x1.e945b2p-1,0x1.2684a6p-1,-0x1.d56a66p-4,-0x1.4ac726p-1,-0x1.e79a9ap-1,-0x1.12f51ap+0,-0x1.842412p-1},
{-0x1.4c2a5cp+0,-0x1.7b11a8p-1,-0x1.61a954p-2,-0x1.40cdf8p-2,-0x1.9ca61p-2,-0x1.7cf308p-2,-0x1.40e2eep-4,0x1.8d7e26p-4},
{0x1.d44d46p-1,0x1.be30bp+0,0x1.e8b892p+0,0x1.8b4924p+0,0x1.17ec5p+0,0x1.4b827p-1,0x1.286106p-5,-0x1.303918p-2},
{-0x1.41d432p+1,-0x1.7224f4p+1,-0x1.0093acp+1,-0x1.807792p-1,0x1.c3ca7cp-2,0x1.33b05ep+0,0x1.53d25cp+0,0x1.387216p+0},
{-0x1.d82914p-1,0x1.43d668p-1,0x1.165d82p+0,0x1.379e2cp-1,0x1.0ca54p-3,-0x1.2f41bap-2,-0x1.a7f6b4p-3,0x1.145384p-3},
{0x1.94a52p-1,0x1.41bddp-1,0x1.928d82p-2,0x1.eb8724p-2,0x1.ca900ep-2,0x1.ad8922p-3,0x1.ae5ea2p-8,-0x1.60c3cep-4},
{0x1.72a02p+0,0x1.5cac04p+1,0x1.27c95ep+1,0x1.debf0ap-1,-0x1.195678p-2,-0x1.cddd2p-1,-0x1.e1a102p-1,-0x1.4473fp-1},
{0x1.96329p-1,0x1.d7a23ap-7,-0x1.22bb4p-1,-0x1.4f3cc4p-1,-0x1.eaf74cp-2,-0x1.6422e2p-3,0x1.16983ap-4,0x1.2e358p-2},
{0x1.5cb456p+1,0x1.7ad01ap+1,0x1.d97b2ap+0,0x1.2066e2p-1,0x1.1e8cdap-3,0x1.7045c2p-2,0x1.610114p-1,0x1.479294p-1},
{-0x1.0fc8fap-1,-0x1.b3972cp-3,0x1.79e3b6p-8,0x1.b31182p-2,0x1.e47beap-2,0x1.b7c0fap-1,0x1.30ecbp+0,0x1.fe0c92p-1},
{0x1.aff1dap+0,0x1.37d39ap+1,0x1.2a43cep+1,0x1.c7a372p+0,0x1.71b162p+0,0x1.851b9p+0,0x1.78d498p+0,0x1.f492ccp-1},
{-0x1.79d5a8p+1,-0x1.980c2p+0,-0x1.c23a3p-4,0x1.8def8ap-2,0x1.069f1cp-1,0x1.4197fap-1,0x1.a52ebp-1,0x1.c074d8p-1},
{0x1.a14b3p-4,0x1.2e01c8p-1,0x1.3cf3dp-1,0x1.446ea2p+0,0x1.35b5ccp+1,0x1.20391ap+1,0x1.0d9644p-1,-0x1.961c16p-2},
{0x1.575da8p+1,0x1.53cf2ep+0,0x1.0a9e94p-3,-0x1.5aa86cp-2,-0x1.790e76p-2,-0x1.8894bep-3,-0x1.3cfe8ap-3,-0x1.dfa804p-3},
{0x1.34ed3ap+2,0x1.8f4b0ep+1,0x1.6527aep+0,0x1.004d6ap-2,-0x1.930f82p-2,-0x1.49735ap-1,-0x1.48ff08p-1,-0x1.724662p-1},
{0x1.67cd02p-4,-0x1.23a0e2p-1,-0x1.2522aap+0,-0x1.ab7078p+0,-0x1.d8687ap+0,-0x1.908ee2p+0,-0x1.1e125cp+0,-0x1.11660cp-1},
{0x1.641a16p+0,0x1.fb4146p+0,0x1.1cd726p+0,-0x1.c2c7bap-3,-0x1.8cc84ap-1,-0x1.302924p-1,0x1.1872c8p-3,0x1.a2f0bcp-1},
{0x1.89d0e2p-2,-0x1.48e2c6p-3,-0x1.1427e2p-1,-0x1.0f019ap-1,0x1.860206p-3,0x1.47c2b2p+1,0x1.68d3dp+1,0x1.50372ap-1},
{0x1.eea982p+0,0x1.815192p+1,0x1.88604ep+1,0x1.402418p+1,0x1.ee4f32p+0,0x1.24f158p-1,-0x1.9f9c9ep-1,-0x1.2d29bcp+0},
{0x1.669096p-3,-0x1.804488p-1,-0x1.0a18acp+0,-0x1.22c228p+0,-0x1.0abf24p+0,-0x1.f24542p-7,0x1.09059ep+1,0x1.b6f98p+1},
{-0x1.302becp+0,0x1.77988ep-2,0x1.4f4086p+0,0x1.aeed32p+0,0x1.404224p+0,0x1.e27f14p-1,0x1.a70a4ep-1,0x1.c282f8p-2},
{0x1.44409ep+1,0x1.0e6e7ap+1,0x1.434c6p+0,0x1.85e51ap-1,0x1.0b530ap-1,0x1.e61d12p-4,-0x1.cf3402p-2,-0x1.669498p-1},
{0x1.ffdbe6p+1,0x1.050eap+2,0x1.69535ep+1,0x1.b9dfdcp+0,0x1.4b5682p-1,-0x1.53189ap-2,-0x1.c4a13ap-1,-0x1.208154p+0},
{0x1.040bdp-1,0x1.96a05ep+0,0x1.ba9f1ap+0,0x1.01c5a8p+0,0x1.822c12p-2,0x1.e7cdbep-2,0x1.166982p+0,0x1.166a82p+0},
{0x1.9593a4p+1,0x1.a117aap+1,0x1.360e1ep+1,0x1.cb61c8p+0,0x1.85935p+0,0x1.2c0608p+0,0x1.f523dcp-2,-0x1.fe31bap-5},
{0x1.e4e6dcp+0,0x1.40473cp+0,0x1.2e4fap-1,0x1.377ac6p-1,0x1.c19fa2p-1,0x1.1e7efcp+0,0x1.04c17p+0,0x1.3dac22p-1},
{0x1.e5d3aep-1,0x1.10f24cp+1,0x1.5c9a2p+1,0x1.628accp+1,0x1.457cc2p+1,0x1.029e86p+1,0x1.a8fbc6p-1,-0x1.c37e16p-6},
{-0x1.e15938p+0,-0x1.43a9dep+0,0x1.3ee63p-2,0x1.d6321cp+0,0x1.20cfdp+1,0x1.062b16p+1,0x1.18fe8ep+1,0x1.03678p+1},
{0x1.f893d8p-3,0x1.e94742p-1,0x1.853d6p+0,0x1.f9fa34p+0,0x1.f0c096p+0,0x1.1debccp+1,0x1.fd0526p+0,0x1.45b734p+0},
};
static const float SNS_HFCB[32][8]={{0x1.db31b8p-3,-0x1.024772p+0,-0x1.1234c2p+1,-0x1.300b14p+1,-0x1.1d7e62p+1,-0x1.1685d2p+1,-0x1.253452p+1,-0x1.4434e4p+1},
{-0x1.4b87b4p+0,-0x1.cc9ee6p+0,-0x1.e3147ep+0,-0x1.cf56b2p+0,-0x1.c36e36p+0,-0x1.d58d1ap+0,-0x1.ce0804p+0,-0x1.bc9eap+0},
{0x1.1d41d4p-3,-0x1.0861aep-2,-0x1.4d3642p-1,-0x1.1172c2p+0,-0x1.9e899ep+0,-0x1.18041ep+1,-0x1.519c16p+1,-0x1.7d4f22p+1},
{-0x1.441c02p-2,-0x1.e936aep-2,-0x1.1a31eap-1,-0x1.f06c56p-2,-0x1.e8382cp-3,-0x1.24ea08p-3,0x1.17d55p-4,0x1.69b3bcp-4},
{0x1.c2503cp-1,0x1.31801p-2,-0x1.d4ad86p-1,-0x1.1a6d46p+1,-0x1.5ee6e8p+1,-0x1.6e420ep+1,-0x1.71b79ep+1,-0x1.79d57p+1},
{-0x1.2fd2ap-2,-0x1.f333d8p-1,-0x1.5bcb92p+0,-0x1.f7aa4ap-1,-0x1.4e506p-1,-0x1.fadf94p-1,-0x1.9d5b2ap+0,-0x1.341c9cp+1},
{0x1.5d2a26p-2,0x1.135a78p-2,0x1.cd7c0ep-5,0x1.98dfcep-5,-0x1.86cfdcp-4,-0x1.85348p-1,-0x1.29ee2ep+1,-0x1.e2c25p+1},
{-0x1.698c56p+0,-0x1.7c3774p+0,-0x1.2fa00ap+0,-0x1.400036p-1,0x1.3b313cp-3,0x1.271c22p-1,0x1.97166p-1,0x1.3170ecp-1},
{-0x1.d4a9dp-3,-0x1.55ba74p-2,-0x1.9e5f5ep-1,-0x1.a2c8f4p+0,-0x1.e28672p+0,-0x1.a51c8ep+0,-0x1.67b86cp+0,-0x1.777756p+0},
{-0x1.124cecp+0,-0x1.6aec6ep+0,-0x1.8c85dep+0,-0x1.73f53ap+0,-0x1.0825fep+0,-0x1.619beap-1,-0x1.b722d4p-2,-0x1.fad6dap-2},
{-0x1.2e960cp-1,-0x1.23871cp-4,0x1.62044cp-2,0x1.33c33cp-2,-0x1.1e5ffep+0,-0x1.386f22p+1,-0x1.1d410ap+1,-0x1.e524c4p+0},
{-0x1.b265f4p-1,-0x1.2a9cb4p-1,0x1.70d044p-4,0x1.b0a71ep-1,0x1.10d348p+0,0x1.79a47ap-1,0x1.06bfa6p-2,-0x1.f7c53ep-2},
{0x1.24045cp+0,0x1.ed93ap-1,0x1.869dc4p-2,-0x1.ee700ep-2,-0x1.d0fad2p+0,-0x1.66c1fep+1,-0x1.9def08p+1,-0x1.bac35ep+1},
{-0x1.815064p-2,0x1.5cb69ep-5,0x1.0878fp-1,0x1.01c212p-2,-0x1.babc9p-3,-0x1.117228p-1,-0x1.48151ep-1,-0x1.bd4f38p-1},
{0x1.547b6cp-1,0x1.19107ap+0,0x1.62284p+0,0x1.57e0c8p+0,0x1.a55d7cp-1,0x1.ba1d9ep-3,-0x1.9ea4dcp-2,-0x1.11fc4ep+0},
{-0x1.a70c54p-1,-0x1.57a512p-1,-0x1.d3f58p-3,0x1.09b7dcp-1,0x1.5e021p+0,0x1.1711cap+1,0x1.449a5ep+1,0x1.19c148p+1},
{0x1.68fb38p+0,0x1.824636p-1,-0x1.4e35a2p+0,-0x1.df0ff2p+0,-0x1.3d7654p+0,-0x1.446296p+0,-0x1.04b2dap+1,-0x1.72cc08p+1},
{0x1.720f62p-2,-0x1.686f36p-6,-0x1.28a308p-1,-0x1.c24462p-1,-0x1.b38cfcp-1,-0x1.8f0d22p-1,-0x1.76e0aep-1,-0x1.c6d59ep-1},
{0x1.bff7fp-2,0x1.38c56p-2,-0x1.e42bd2p-8,-0x1.fb8ba2p-2,-0x1.9d0166p-1,-0x1.396cf6p+0,-0x1.b39a98p+0,-0x1.1f5982p+1},
{0x1.4bd3cep-1,0x1.5d565p-1,0x1.03534ep-2,0x1.2d66a4p-4,0x1.41c206p-2,0x1.e0ba1p-3,0x1.28241ep-3,-0x1.17657cp-4},
{0x1.1e83c8p+0,0x1.3c126p+0,0x1.2da7b8p-1,-0x1.5f3674p+0,-0x1.2f7b86p+1,-0x1.00ff84p+1,-0x1.aab9p+0,-0x1.ed2334p+0},
{0x1.2280fp-3,-0x1.c5437ep-4,-0x1.219cc6p-2,-0x1.b06a54p-8,0x1.24caa6p-2,0x1.79326ep-5,-0x1.348784p-1,-0x1.22020ap+1},
{0x1.021272p-1,0x1.a76a34p-1,0x1.1eac06p+0,0x1.2ddc26p+0,0x1.1472a4p+0,0x1.652378p-1,-0x1.d3399ap-1,-0x1.c9d624p+1},
{-0x1.008d0ap-1,-0x1.4d7e8ap-2,0x1.cc0f4cp-6,0x1.0c5808p-2,0x1.713eb8p-2,0x1.457078p-1,0x1.eb03aep-1,0x1.4eb526p+0},
{0x1.dff67ep+1,0x1.85ff42p+0,-0x1.d4b36ap-2,-0x1.98f0a6p-1,-0x1.8c1a5ep-2,-0x1.80ec36p-2,-0x1.50dp-1,-0x1.48198ap+0},
{-0x1.271022p+0,-0x1.1ba678p+0,-0x1.200f16p-1,-0x1.c3b614p-3,-0x1.663d36p-2,-0x1.81c1fp-1,-0x1.fa2956p-1,-0x1.49b42p+0},
{0x1.073cdep+0,0x1.190336p+0,0x1.898be8p-1,0x1.a60e4ep-3,-0x1.5f0878p-2,-0x1.82876ap-1,-0x1.0abe02p+0,-0x1.80dbfap+0},
{0x1.07d90ep-3,0x1.60fe34p-1,0x1.1f9baap+0,0x1.4f314p+0,0x1.5ae92p+0,0x1.6c513p+0,0x1.28356p+0,0x1.a01234p-2},
{0x1.571fe2p+0,0x1.63d4f6p+0,0x1.0b7018p+0,0x1.458a9p-1,-0x1.1953cep-2,-0x1.8c9a94p+0,-0x1.38a078p+1,-0x1.83255p+1},
{0x1.11b81cp+1,0x1.0fd0b2p+2,0x1.72dc12p+1,0x1.dd8eep-1,-0x1.2bd998p-2,-0x1.9eed5p-1,-0x1.93e684p-1,-0x1.dee69cp-1},
{0x1.213176p-1,0x1.978378p+0,0x1.32e864p+1,0x1.84bb8cp+1,0x1.5505eep+1,0x1.649e96p+0,0x1.9d86aap-2,-0x1.5002cp-1},
{-0x1.b0998p-2,0x1.4dfa2ap-2,0x1.64475p+0,0x1.1da0aep+1,0x1.4e4f48p+1,0x1.552bfp+1,0x1.335522p+1,0x1.c25b2ep+0},
};
static const int SNS_NGAINS[4]={2,4,4,8,};
static const float SNS_GAINS[4][8]={{0x1.1698p+1,0x1.78bp+1},
{0x1.865p+0,0x1.d618p+1,0x1.1714p+2,0x1.4858p+2},
{0x1.bbbp+0,0x1.1d6p+1,0x1.5fa8p+1,0x1.cecp+1},
{0x1.0fp+0,0x1.3cbp+0,0x1.707p+0,0x1.fd5p+0,0x1.3fd8p+1,0x1.90c8p+1,0x1.079p+2,0x1.36a8p+2},
};
static const int32_t SNS_MPVQ[16][11]={{0,1,1,1,1,1,1,1,1,1,1,},
{0,1,3,5,7,9,11,13,15,17,19,},
{0,1,5,13,25,41,61,85,113,145,181,},
{0,1,7,25,63,129,231,377,575,833,1159,},
{0,1,9,41,129,321,681,1289,2241,3649,5641,},
{0,1,11,61,231,681,1683,3653,7183,13073,22363,},
{0,1,13,85,377,1289,3653,8989,19825,40081,75517,},
{0,1,15,113,575,2241,7183,19825,48639,108545,224143,},
{0,1,17,145,833,3649,13073,40081,108545,265729,598417,},
{0,1,19,181,1159,5641,22363,75517,224143,598417,1462563,},
{0,1,21,221,1561,8361,36365,134245,433905,1256465,3317445,},
{0,1,23,265,2047,11969,56695,227305,795455,2485825,7059735,},
{0,1,25,313,2625,16641,85305,369305,1392065,4673345,14218905,},
{0,1,27,365,3303,22569,124515,579125,2340495,8405905,27298155,},
{0,1,29,421,4089,29961,177045,880685,3800305,14546705,50250765,},
{0,1,31,481,4991,39041,246047,1303777,5984767,24331777,89129247,},
};
static const uint16_t TNS_ORDER_M[2][17][2] = {
{{0,3},{3,9},{12,23},{35,54},{89,111},{200,190},{390,268},{658,366},{1024,0},{1024,0},{1024,0},{1024,0},{1024,0},{1024,0},{1024,0},{1024,0},{1024,0},},
{{0,14},{14,42},{56,100},{156,157},{313,181},{494,178},{672,167},{839,185},{1024,0},{1024,0},{1024,0},{1024,0},{1024,0},{1024,0},{1024,0},{1024,0},{1024,0},},
};
static const uint16_t TNS_COEF_M[8][17][2] = {
{{0,1},{1,5},{6,15},{21,31},{52,54},{106,86},{192,97},{289,120},{409,159},{568,152},{720,111},{831,104},{935,59},{994,22},{1016,6},{1022,1},{1023,1},},
{{0,1},{1,1},{2,1},{3,1},{4,13},{17,43},{60,94},{154,139},{293,173},{466,160},{626,154},{780,131},{911,78},{989,27},{1016,6},{1022,1},{1023,1},},
{{0,1},{1,1},{2,1},{3,1},{4,9},{13,43},{56,106},{162,199},{361,217},{578,210},{788,141},{929,74},{1003,17},{1020,1},{1021,1},{1022,1},{1023,1},},
{{0,1},{1,1},{2,1},{3,1},{4,2},{6,11},{17,49},{66,204},{270,285},{555,297},{852,120},{972,39},{1011,9},{1020,1},{1021,1},{1022,1},{1023,1},},
{{0,1},{1,1},{2,1},{3,1},{4,1},{5,7},{12,42},{54,241},{295,341},{636,314},{950,58},{1008,9},{1017,3},{1020,1},{1021,1},{1022,1},{1023,1},},
{{0,1},{1,1},{2,1},{3,1},{4,1},{5,1},{6,13},{19,205},{224,366},{590,377},{967,47},{1014,5},{1019,1},{1020,1},{1021,1},{1022,1},{1023,1},},
{{0,1},{1,1},{2,1},{3,1},{4,1},{5,1},{6,13},{19,281},{300,330},{630,371},{1001,17},{1018,1},{1019,1},{1020,1},{1021,1},{1022,1},{1023,1},},
{{0,1},{1,1},{2,1},{3,1},{4,1},{5,1},{6,5},{11,297},{308,1},{309,682},{991,26},{1017,2},{1019,1},{1020,1},{1021,1},{1022,1},{1023,1},},
};
static const uint16_t SPEC_M[64][17][2] = {
{{0,1},{1,1},{2,175},{177,48},{225,1},{226,1},{227,109},{336,36},{372,171},{543,109},{652,47},{699,20},{719,49},{768,36},{804,20},{824,10},{834,190},},
{{0,18},{18,26},{44,17},{61,10},{71,27},{98,37},{135,24},{159,16},{175,22},{197,32},{229,22},{251,14},{265,17},{282,26},{308,20},{328,13},{341,683},},
{{0,71},{71,92},{163,49},{212,25},{237,81},{318,102},{420,61},{481,33},{514,42},{556,57},{613,39},{652,23},{675,22},{697,30},{727,22},{749,15},{764,260},},
{{0,160},{160,130},{290,46},{336,18},{354,121},{475,123},{598,55},{653,24},{677,45},{722,55},{777,31},{808,15},{823,19},{842,24},{866,15},{881,9},{890,134},},
{{0,71},{71,73},{144,33},{177,18},{195,71},{266,76},{342,43},{385,26},{411,34},{445,44},{489,30},{519,20},{539,20},{559,27},{586,21},{607,15},{622,402},},
{{0,48},{48,60},{108,32},{140,19},{159,58},{217,68},{285,42},{327,27},{354,31},{385,42},{427,30},{457,21},{478,19},{497,27},{524,21},{545,16},{561,463},},
{{0,138},{138,109},{247,43},{290,18},{308,111},{419,112},{531,53},{584,25},{609,46},{655,55},{710,32},{742,17},{759,21},{780,27},{807,18},{825,11},{836,188},},
{{0,16},{16,24},{40,22},{62,17},{79,24},{103,36},{139,31},{170,25},{195,20},{215,30},{245,25},{270,20},{290,15},{305,22},{327,19},{346,16},{362,662},},
{{0,579},{579,150},{729,12},{741,2},{743,154},{897,73},{970,10},{980,2},{982,14},{996,11},{1007,3},{1010,1},{1011,3},{1014,3},{1017,1},{1018,1},{1019,5},},
{{0,398},{398,184},{582,25},{607,5},{612,176},{788,114},{902,23},{925,6},{931,25},{956,23},{979,8},{987,3},{990,6},{996,6},{1002,3},{1005,2},{1007,17},},
{{0,13},{13,21},{34,18},{52,11},{63,20},{83,29},{112,22},{134,15},{149,14},{163,20},{183,16},{199,12},{211,10},{221,14},{235,12},{247,10},{257,767},},
{{0,281},{281,183},{464,37},{501,9},{510,171},{681,139},{820,37},{857,10},{867,35},{902,36},{938,15},{953,6},{959,9},{968,10},{978,6},{984,3},{987,37},},
{{0,198},{198,164},{362,46},{408,13},{421,154},{575,147},{722,51},{773,16},{789,43},{832,49},{881,24},{905,10},{915,13},{928,16},{944,10},{954,5},{959,65},},
{{0,1},{1,1},{2,93},{95,44},{139,1},{140,1},{141,72},{213,38},{251,86},{337,70},{407,43},{450,25},{475,40},{515,36},{551,25},{576,16},{592,432},},
{{0,133},{133,141},{274,64},{338,28},{366,117},{483,122},{605,59},{664,27},{691,39},{730,48},{778,29},{807,15},{822,15},{837,20},{857,13},{870,8},{878,146},},
{{0,128},{128,125},{253,49},{302,18},{320,123},{443,134},{577,59},{636,23},{659,49},{708,59},{767,32},{799,15},{814,19},{833,24},{857,15},{872,9},{881,143},},
{{0,1},{1,1},{2,23},{25,17},{42,1},{43,1},{44,23},{67,18},{85,20},{105,21},{126,18},{144,15},{159,15},{174,17},{191,14},{205,12},{217,807},},
{{0,70},{70,96},{166,63},{229,38},{267,89},{356,112},{468,65},{533,36},{569,37},{606,47},{653,32},{685,20},{705,17},{722,23},{745,17},{762,12},{774,250},},
{{0,55},{55,75},{130,45},{175,25},{200,68},{268,90},{358,58},{416,33},{449,39},{488,54},{542,39},{581,25},{606,22},{628,31},{659,24},{683,16},{699,325},},
{{0,1},{1,2},{3,2},{5,2},{7,2},{9,2},{11,2},{13,2},{15,2},{17,2},{19,2},{21,2},{23,2},{25,2},{27,2},{29,2},{31,993},},
{{0,34},{34,51},{85,38},{123,24},{147,49},{196,69},{265,52},{317,35},{352,34},{386,47},{433,37},{470,27},{497,21},{518,31},{549,25},{574,19},{593,431},},
{{0,30},{30,43},{73,32},{105,22},{127,43},{170,59},{229,45},{274,31},{305,30},{335,42},{377,34},{411,25},{436,19},{455,28},{483,23},{506,18},{524,500},},
{{0,9},{9,15},{24,14},{38,13},{51,14},{65,22},{87,21},{108,18},{126,13},{139,20},{159,18},{177,16},{193,11},{204,17},{221,15},{236,14},{250,774},},
{{0,30},{30,44},{74,31},{105,20},{125,41},{166,58},{224,42},{266,28},{294,28},{322,39},{361,30},{391,22},{413,18},{431,26},{457,21},{478,16},{494,530},},
{{0,15},{15,23},{38,20},{58,15},{73,22},{95,33},{128,28},{156,22},{178,18},{196,26},{222,23},{245,18},{263,13},{276,20},{296,18},{314,15},{329,695},},
{{0,11},{11,17},{28,16},{44,13},{57,17},{74,26},{100,23},{123,19},{142,15},{157,22},{179,20},{199,17},{216,12},{228,18},{246,16},{262,14},{276,748},},
{{0,448},{448,171},{619,20},{639,4},{643,178},{821,105},{926,18},{944,4},{948,23},{971,20},{991,7},{998,2},{1000,5},{1005,5},{1010,2},{1012,1},{1013,11},},
{{0,332},{332,188},{520,29},{549,6},{555,186},{741,133},{874,29},{903,7},{910,30},{940,30},{970,11},{981,4},{985,6},{991,7},{998,4},{1002,2},{1004,20},},
{{0,8},{8,13},{21,13},{34,11},{45,13},{58,20},{78,18},{96,16},{112,12},{124,17},{141,16},{157,13},{170,10},{180,14},{194,13},{207,12},{219,805},},
{{0,239},{239,176},{415,42},{457,11},{468,163},{631,145},{776,44},{820,13},{833,39},{872,42},{914,19},{933,7},{940,11},{951,13},{964,7},{971,4},{975,49},},
{{0,165},{165,145},{310,49},{359,16},{375,138},{513,139},{652,55},{707,20},{727,47},{774,54},{828,28},{856,12},{868,16},{884,20},{904,12},{916,7},{923,101},},
{{0,3},{3,5},{8,5},{13,5},{18,5},{23,7},{30,7},{37,7},{44,4},{48,7},{55,7},{62,6},{68,4},{72,6},{78,6},{84,6},{90,934},},
{{0,115},{115,122},{237,52},{289,22},{311,111},{422,125},{547,61},{608,27},{635,45},{680,57},{737,34},{771,17},{788,19},{807,25},{832,17},{849,10},{859,165},},
{{0,107},{107,114},{221,51},{272,21},{293,106},{399,122},{521,61},{582,28},{610,46},{656,58},{714,35},{749,18},{767,20},{787,26},{813,18},{831,11},{842,182},},
{{0,6},{6,10},{16,10},{26,9},{35,10},{45,15},{60,15},{75,14},{89,9},{98,14},{112,13},{125,12},{137,8},{145,12},{157,11},{168,10},{178,846},},
{{0,72},{72,88},{160,50},{210,26},{236,84},{320,102},{422,60},{482,32},{514,41},{555,53},{608,36},{644,21},{665,20},{685,27},{712,20},{732,13},{745,279},},
{{0,45},{45,63},{108,45},{153,30},{183,61},{244,83},{327,58},{385,36},{421,34},{455,47},{502,34},{536,23},{559,19},{578,27},{605,21},{626,15},{641,383},},
{{0,1},{1,1},{2,7},{9,7},{16,1},{17,1},{18,8},{26,8},{34,6},{40,8},{48,7},{55,7},{62,6},{68,7},{75,7},{82,6},{88,936},},
{{0,29},{29,44},{73,35},{108,24},{132,42},{174,62},{236,48},{284,34},{318,30},{348,43},{391,35},{426,26},{452,19},{471,29},{500,24},{524,19},{543,481},},
{{0,20},{20,31},{51,25},{76,17},{93,30},{123,43},{166,34},{200,25},{225,22},{247,32},{279,26},{305,21},{326,16},{342,23},{365,20},{385,16},{401,623},},
{{0,742},{742,103},{845,5},{850,1},{851,108},{959,38},{997,4},{1001,1},{1002,7},{1009,5},{1014,2},{1016,1},{1017,2},{1019,1},{1020,1},{1021,1},{1022,2},},
{{0,42},{42,52},{94,27},{121,16},{137,49},{186,58},{244,36},{280,23},{303,27},{330,36},{366,26},{392,18},{410,17},{427,24},{451,19},{470,14},{484,540},},
{{0,13},{13,20},{33,18},{51,15},{66,19},{85,29},{114,26},{140,21},{161,17},{178,25},{203,22},{225,18},{243,13},{256,19},{275,17},{292,15},{307,717},},
{{0,501},{501,169},{670,19},{689,4},{693,155},{848,88},{936,16},{952,4},{956,19},{975,16},{991,6},{997,2},{999,5},{1004,4},{1008,2},{1010,1},{1011,13},},
{{0,445},{445,136},{581,22},{603,6},{609,158},{767,98},{865,23},{888,7},{895,31},{926,28},{954,10},{964,4},{968,9},{977,9},{986,5},{991,2},{993,31},},
{{0,285},{285,157},{442,37},{479,10},{489,161},{650,129},{779,39},{818,12},{830,40},{870,42},{912,18},{930,7},{937,12},{949,14},{963,8},{971,4},{975,49},},
{{0,349},{349,179},{528,33},{561,8},{569,162},{731,121},{852,31},{883,9},{892,31},{923,30},{953,12},{965,5},{970,8},{978,9},{987,5},{992,2},{994,30},},
{{0,199},{199,156},{355,47},{402,15},{417,146},{563,137},{700,50},{750,17},{767,44},{811,49},{860,24},{884,10},{894,15},{909,17},{926,10},{936,6},{942,82},},
{{0,141},{141,134},{275,50},{325,18},{343,128},{471,135},{606,58},{664,22},{686,48},{734,57},{791,31},{822,14},{836,18},{854,23},{877,14},{891,8},{899,125},},
{{0,243},{243,194},{437,56},{493,17},{510,139},{649,126},{775,45},{820,16},{836,33},{869,36},{905,18},{923,8},{931,10},{941,12},{953,7},{960,4},{964,60},},
{{0,91},{91,106},{197,51},{248,23},{271,99},{370,117},{487,63},{550,30},{580,45},{625,59},{684,37},{721,20},{741,20},{761,27},{788,19},{807,12},{819,205},},
{{0,107},{107,94},{201,41},{242,20},{262,92},{354,97},{451,52},{503,28},{531,42},{573,53},{626,34},{660,20},{680,21},{701,29},{730,21},{751,14},{765,259},},
{{0,168},{168,171},{339,68},{407,25},{432,121},{553,123},{676,55},{731,24},{755,34},{789,41},{830,24},{854,12},{866,13},{879,16},{895,11},{906,6},{912,112},},
{{0,67},{67,80},{147,44},{191,23},{214,76},{290,94},{384,57},{441,31},{472,41},{513,54},{567,37},{604,23},{627,21},{648,30},{678,22},{700,15},{715,309},},
{{0,46},{46,63},{109,39},{148,23},{171,58},{229,78},{307,52},{359,32},{391,36},{427,49},{476,37},{513,24},{537,21},{558,30},{588,24},{612,17},{629,395},},
{{0,848},{848,70},{918,2},{920,1},{921,75},{996,16},{1012,1},{1013,1},{1014,2},{1016,1},{1017,1},{1018,1},{1019,1},{1020,1},{1021,1},{1022,1},{1023,1},},
{{0,36},{36,52},{88,35},{123,22},{145,48},{193,67},{260,48},{308,32},{340,32},{372,45},{417,35},{452,24},{476,20},{496,29},{525,23},{548,17},{565,459},},
{{0,24},{24,37},{61,29},{90,20},{110,35},{145,51},{196,41},{237,29},{266,26},{292,38},{330,31},{361,24},{385,18},{403,27},{430,23},{453,18},{471,553},},
{{0,85},{85,97},{182,48},{230,23},{253,91},{344,110},{454,61},{515,30},{545,45},{590,58},{648,37},{685,21},{706,21},{727,29},{756,20},{776,13},{789,235},},
{{0,22},{22,33},{55,27},{82,20},{102,33},{135,48},{183,39},{222,30},{252,26},{278,37},{315,30},{345,23},{368,17},{385,25},{410,21},{431,17},{448,576},},
{{0,1},{1,1},{2,54},{56,33},{89,1},{90,1},{91,49},{140,32},{172,49},{221,47},{268,35},{303,25},{328,30},{358,30},{388,24},{412,18},{430,594},},
{{0,45},{45,64},{109,43},{152,25},{177,62},{239,81},{320,56},{376,35},{411,37},{448,51},{499,38},{537,26},{563,22},{585,31},{616,24},{640,18},{658,366},},
{{0,247},{247,148},{395,38},{433,12},{445,154},{599,130},{729,42},{771,14},{785,44},{829,46},{875,21},{896,9},{905,15},{920,17},{937,9},{946,5},{951,73},},
{{0,231},{231,136},{367,41},{408,15},{423,134},{557,119},{676,47},{723,19},{742,44},{786,49},{835,25},{860,12},{872,17},{889,20},{909,12},{921,7},{928,96},},
};
static const uint16_t TNS_ORDER_B[2][8]={{17234,13988,11216,8694,6566,4977,3961,3040,},{12683,9437,6874,5541,5121,5170,5359,5056,},};
static const uint16_t TNS_COEF_B[8][17]={{20480,15725,12479,10334,8694,7320,6964,6335,5504,5637,6566,6758,8433,11348,15186,20480,20480,},
{20480,20480,20480,20480,12902,9368,7057,5901,5254,5485,5598,6076,7608,10742,15186,20480,20480,},
{20480,20480,20480,20480,13988,9368,6702,4841,4585,4682,5859,7764,12109,20480,20480,20480,20480,},
{20480,20480,20480,20480,18432,13396,8982,4767,3779,3658,6335,9656,13988,20480,20480,20480,20480,},
{20480,20480,20480,20480,20480,14731,9437,4275,3249,3493,8483,13988,17234,20480,20480,20480,20480,},
{20480,20480,20480,20480,20480,20480,12902,4753,3040,2953,9105,15725,20480,20480,20480,20480,20480,},
{20480,20480,20480,20480,20480,20480,12902,3821,3346,3000,12109,20480,20480,20480,20480,20480,20480,},
{20480,20480,20480,20480,20480,20480,15725,3658,20480,1201,10854,18432,20480,20480,20480,20480,20480,},
};
static const uint16_t SPEC_B[64][17]={{20480,20480,5220,9042,20480,20480,6619,9892,5289,6619,9105,11629,8982,9892,11629,13677,4977,},
{11940,10854,12109,13677,10742,9812,11090,12288,11348,10240,11348,12683,12109,10854,11629,12902,1197,},
{7886,7120,8982,10970,7496,6815,8334,10150,9437,8535,9656,11216,11348,10431,11348,12479,4051,},
{5485,6099,9168,11940,6311,6262,8640,11090,9233,8640,10334,12479,11781,11090,12479,13988,6009,},
{7886,7804,10150,11940,7886,7685,9368,10854,10061,9300,10431,11629,11629,10742,11485,12479,2763,},
{9042,8383,10240,11781,8483,8013,9437,10742,10334,9437,10431,11485,11781,10742,11485,12288,2346,},
{5922,6619,9368,11940,6566,6539,8750,10970,9168,8640,10240,12109,11485,10742,11940,13396,5009,},
{12288,11090,11348,12109,11090,9892,10334,10970,11629,10431,10970,11629,12479,11348,11781,12288,1289,},
{1685,5676,13138,18432,5598,7804,13677,18432,12683,13396,17234,20480,17234,17234,20480,20480,15725,},
{2793,5072,10970,15725,5204,6487,11216,15186,10970,11216,14336,17234,15186,15186,17234,18432,12109,},
{12902,11485,11940,13396,11629,10531,11348,12479,12683,11629,12288,13138,13677,12683,13138,13677,854,},
{3821,5088,9812,13988,5289,5901,9812,13677,9976,9892,12479,15186,13988,13677,15186,17234,9812,},
{4856,5412,9168,12902,5598,5736,8863,12288,9368,8982,11090,13677,12902,12288,13677,15725,8147,},
{20480,20480,7088,9300,20480,20480,7844,9733,7320,7928,9368,10970,9581,9892,10970,12288,2550,},
{6031,5859,8192,10635,6410,6286,8433,10742,9656,9042,10531,12479,12479,11629,12902,14336,5756,},
{6144,6215,8982,11940,6262,6009,8433,11216,8982,8433,10240,12479,11781,11090,12479,13988,5817,},
{20480,20480,11216,12109,20480,20480,11216,11940,11629,11485,11940,12479,12479,12109,12683,13138,704,},
{7928,6994,8239,9733,7218,6539,8147,9892,9812,9105,10240,11629,12109,11216,12109,13138,4167,},
{8640,7724,9233,10970,8013,7185,8483,10150,9656,8694,9656,10970,11348,10334,11090,12288,3391,},
{20480,18432,18432,18432,18432,18432,18432,18432,18432,18432,18432,18432,18432,18432,18432,18432,91,},
{10061,8863,9733,11090,8982,7970,8806,9976,10061,9105,9812,10742,11485,10334,10970,11781,2557,},
{10431,9368,10240,11348,9368,8433,9233,10334,10431,9437,10061,10970,11781,10635,11216,11940,2119,},
{13988,12479,12683,12902,12683,11348,11485,11940,12902,11629,11940,12288,13396,12109,12479,12683,828,},
{10431,9300,10334,11629,9508,8483,9437,10635,10635,9656,10431,11348,11940,10854,11485,12288,1946,},
{12479,11216,11629,12479,11348,10150,10635,11348,11940,10854,11216,11940,12902,11629,11940,12479,1146,},
{13396,12109,12288,12902,12109,10854,11216,11781,12479,11348,11629,12109,13138,11940,12288,12683,928,},
{2443,5289,11629,16384,5170,6730,11940,16384,11216,11629,14731,18432,15725,15725,18432,20480,13396,},
{3328,5009,10531,15186,5040,6031,10531,14731,10431,10431,13396,16384,15186,14731,16384,18432,11629,},
{14336,12902,12902,13396,12902,11629,11940,12288,13138,12109,12288,12902,13677,12683,12902,13138,711,},
{4300,5204,9437,13396,5430,5776,9300,12902,9656,9437,11781,14731,13396,12902,14731,16384,8982,},
{5394,5776,8982,12288,5922,5901,8640,11629,9105,8694,10635,13138,12288,11629,13138,14731,6844,},
{17234,15725,15725,15725,15725,14731,14731,14731,16384,14731,14731,15186,16384,15186,15186,15186,272,},
{6461,6286,8806,11348,6566,6215,8334,10742,9233,8535,10061,12109,11781,10970,12109,13677,5394,},
{6674,6487,8863,11485,6702,6286,8334,10635,9168,8483,9976,11940,11629,10854,11940,13396,5105,},
{15186,13677,13677,13988,13677,12479,12479,12683,13988,12683,12902,13138,14336,13138,13396,13677,565,},
{7844,7252,8922,10854,7389,6815,8383,10240,9508,8750,9892,11485,11629,10742,11629,12902,3842,},
{9233,8239,9233,10431,8334,7424,8483,9892,10061,9105,10061,11216,11781,10742,11485,12479,2906,},
{20480,20480,14731,14731,20480,20480,14336,14336,15186,14336,14731,14731,15186,14731,14731,15186,266,},
{10531,9300,9976,11090,9437,8286,9042,10061,10431,9368,9976,10854,11781,10531,11090,11781,2233,},
{11629,10334,10970,12109,10431,9368,10061,10970,11348,10240,10854,11485,12288,11216,11629,12288,1469,},
{952,6787,15725,20480,6646,9733,16384,20480,14731,15725,18432,20480,18432,20480,20480,20480,18432,},
{9437,8806,10742,12288,8982,8483,9892,11216,10742,9892,10854,11940,12109,11090,11781,12683,1891,},
{12902,11629,11940,12479,11781,10531,10854,11485,12109,10970,11348,11940,12902,11781,12109,12479,1054,},
{2113,5323,11781,16384,5579,7252,12288,16384,11781,12288,15186,18432,15725,16384,18432,20480,12902,},
{2463,5965,11348,15186,5522,6934,11216,14731,10334,10635,13677,16384,13988,13988,15725,18432,10334,},
{3779,5541,9812,13677,5467,6122,9656,13138,9581,9437,11940,14731,13138,12683,14336,16384,8982,},
{3181,5154,10150,14336,5448,6311,10334,13988,10334,10431,13138,15725,14336,13988,15725,18432,10431,},
{4841,5560,9105,12479,5756,5944,8922,12109,9300,8982,11090,13677,12479,12109,13677,15186,7460,},
{5859,6009,8922,11940,6144,5987,8483,11348,9042,8535,10334,12683,11940,11216,12683,14336,6215,},
{4250,4916,8587,12109,5901,6191,9233,12288,10150,9892,11940,14336,13677,13138,14731,16384,8383,},
{7153,6702,8863,11216,6904,6410,8239,10431,9233,8433,9812,11629,11629,10742,11781,13138,4753,},
{6674,7057,9508,11629,7120,6964,8806,10635,9437,8750,10061,11629,11485,10531,11485,12683,4062,},
{5341,5289,8013,10970,6311,6262,8640,11090,10061,9508,11090,13138,12902,12288,13396,15186,6539,},
{8057,7533,9300,11216,7685,7057,8535,10334,9508,8694,9812,11216,11485,10431,11348,12479,3541,},
{9168,8239,9656,11216,8483,7608,8806,10240,9892,8982,9812,11090,11485,10431,11090,12109,2815,},
{558,7928,18432,20480,7724,12288,20480,20480,18432,20480,20480,20480,20480,20480,20480,20480,20480,},
{9892,8806,9976,11348,9042,8057,9042,10240,10240,9233,9976,11090,11629,10531,11216,12109,2371,},
{11090,9812,10531,11629,9976,8863,9508,10531,10854,9733,10334,11090,11940,10742,11216,11940,1821,},
{7354,6964,9042,11216,7153,6592,8334,10431,9233,8483,9812,11485,11485,10531,11629,12902,4349,},
{11348,10150,10742,11629,10150,9042,9656,10431,10854,9812,10431,11216,12109,10970,11485,12109,1700,},
{20480,20480,8694,10150,20480,20480,8982,10240,8982,9105,9976,10970,10431,10431,11090,11940,1610,},
{9233,8192,9368,10970,8286,7496,8587,9976,9812,8863,9733,10854,11348,10334,11090,11940,3040,},
{4202,5716,9733,13138,5598,6099,9437,12683,9300,9168,11485,13988,12479,12109,13988,15725,7804,},
{4400,5965,9508,12479,6009,6360,9105,11781,9300,8982,10970,13138,12109,11629,13138,14731,6994,},
};
static const uint8_t SPEC_LUT[2][2][256][4]={{{{1,13,0,0,},{39,13,0,0,},{7,13,0,0,},{25,13,0,0,},{22,13,0,0,},{22,13,0,0,},{28,13,0,0,},{22,13,0,0,},{22,60,0,0,},{22,60,0,0,},{22,60,0,0,},{28,60,0,0,},{28,60,0,0,},{28,60,13,0,},{34,60,13,0,},{31,16,13,0,},
{31,16,13,0,},{40,0,0,0,},{43,0,0,0,},{46,0,0,0,},{49,0,0,0,},{52,0,0,0,},{14,0,0,0,},{17,0,0,0,},{36,0,0,0,},{36,0,0,0,},{36,0,0,0,},{38,0,0,0,},{0,0,0,0,},{57,0,0,0,},{38,13,0,0,},{22,60,0,0,},
{0,0,0,0,},{8,0,0,0,},{9,0,0,0,},{11,0,0,0,},{47,0,0,0,},{14,0,0,0,},{14,0,0,0,},{17,0,0,0,},{36,0,0,0,},{36,0,0,0,},{36,0,0,0,},{38,0,0,0,},{59,0,0,0,},{59,0,0,0,},{38,13,0,0,},{22,60,0,0,},
{22,60,0,0,},{26,0,0,0,},{46,0,0,0,},{29,0,0,0,},{30,0,0,0,},{32,0,0,0,},{33,0,0,0,},{35,0,0,0,},{36,0,0,0,},{36,0,0,0,},{36,0,0,0,},{38,0,0,0,},{0,13,0,0,},{59,13,0,0,},{23,13,0,0,},{22,60,0,0,},
{46,60,0,0,},{46,0,0,0,},{45,0,0,0,},{47,0,0,0,},{48,0,0,0,},{50,0,0,0,},{50,0,0,0,},{18,0,0,0,},{54,0,0,0,},{54,0,0,0,},{54,0,0,0,},{38,0,0,0,},{59,13,0,0,},{59,13,0,0,},{59,13,0,0,},{22,60,0,0,},
{0,60,0,0,},{62,0,0,0,},{63,0,0,0,},{3,0,0,0,},{33,0,0,0,},{2,0,0,0,},{2,0,0,0,},{61,0,0,0,},{20,0,0,0,},{20,0,0,0,},{20,13,0,0,},{21,13,0,0,},{59,13,0,0,},{59,13,0,0,},{39,13,0,0,},{28,60,0,0,},
{28,60,0,0,},{63,0,0,0,},{63,0,0,0,},{3,0,0,0,},{33,0,0,0,},{2,0,0,0,},{2,0,0,0,},{61,0,0,0,},{38,0,0,0,},{38,0,0,0,},{38,13,0,0,},{21,13,0,0,},{59,13,0,0,},{59,13,0,0,},{39,13,0,0,},{28,60,0,0,},
{28,60,0,0,},{6,0,0,0,},{6,0,0,0,},{6,0,0,0,},{2,0,0,0,},{18,0,0,0,},{61,0,0,0,},{20,0,0,0,},{21,0,0,0,},{21,0,0,0,},{21,13,0,0,},{59,13,0,0,},{39,13,0,0,},{39,13,0,0,},{7,13,0,0,},{34,60,13,0,},
{34,60,13,0,},{34,60,13,0,},{34,60,13,0,},{34,60,13,0,},{34,60,13,0,},{34,60,13,0,},{34,60,13,0,},{34,60,13,0,},{34,60,13,0,},{34,60,13,0,},{34,60,13,0,},{34,60,13,0,},{34,60,13,0,},{34,60,13,0,},{34,60,13,0,},{34,60,13,0,},
{34,60,13,0,},{51,0,0,0,},{51,0,0,0,},{51,0,0,0,},{53,0,0,0,},{54,0,0,0,},{20,0,0,0,},{38,0,0,0,},{38,0,0,0,},{57,0,0,0,},{39,13,0,0,},{39,13,0,0,},{39,13,0,0,},{7,13,0,0,},{24,13,0,0,},{34,60,13,0,},
{4,60,0,0,},{4,60,0,0,},{4,60,0,0,},{4,60,0,0,},{4,60,0,0,},{4,60,0,0,},{4,60,0,0,},{4,60,0,0,},{4,60,0,0,},{4,60,0,0,},{4,60,0,0,},{4,60,0,0,},{4,60,0,0,},{4,60,0,0,},{4,60,0,0,},{4,60,0,0,},
{4,60,0,0,},{4,0,0,0,},{4,0,0,0,},{4,0,0,0,},{4,0,0,0,},{56,0,0,0,},{38,0,0,0,},{57,0,0,0,},{57,13,0,0,},{59,13,0,0,},{7,13,0,0,},{7,13,0,0,},{7,13,0,0,},{42,13,0,0,},{42,13,0,0,},{34,60,13,0,},
{0,60,13,0,},{0,60,13,0,},{0,60,13,0,},{0,60,13,0,},{0,60,13,0,},{0,60,13,0,},{0,60,13,0,},{0,60,13,0,},{0,60,13,0,},{0,60,13,0,},{0,60,13,0,},{0,60,13,0,},{0,60,13,0,},{0,60,13,0,},{0,60,13,0,},{0,60,13,0,},
{0,60,13,0,},{5,0,0,0,},{4,0,0,0,},{4,0,0,0,},{5,0,0,0,},{21,0,0,0,},{21,0,0,0,},{59,13,0,0,},{7,13,0,0,},{7,13,0,0,},{7,13,0,0,},{7,13,0,0,},{25,13,0,0,},{25,13,0,0,},{25,13,0,0,},{34,60,13,0,},
{4,13,0,0,},{4,13,0,0,},{4,13,0,0,},{4,13,0,0,},{5,13,0,0,},{23,13,0,0,},{23,13,0,0,},{39,13,0,0,},{7,13,0,0,},{7,13,0,0,},{7,13,0,0,},{42,13,0,0,},{25,13,0,0,},{25,13,0,0,},{22,13,0,0,},{31,60,13,0,},
{31,60,13,0,},{39,60,0,0,},{39,60,0,0,},{39,60,0,0,},{39,60,0,0,},{7,60,0,0,},{7,60,0,0,},{42,60,0,0,},{0,60,0,0,},{25,60,0,0,},{22,60,0,0,},{22,60,0,0,},{22,60,0,0,},{28,60,0,0,},{34,60,0,0,},{31,16,13,0,},
},
{{55,0,13,0,},{55,0,13,0,},{55,0,13,0,},{55,0,13,0,},{55,0,13,0,},{55,0,13,0,},{55,0,13,0,},{55,0,13,0,},{55,0,13,0,},{55,0,13,0,},{55,0,13,0,},{55,0,13,0,},{55,0,13,0,},{55,0,13,0,},{55,0,13,0,},{55,0,13,0,},
{55,0,13,0,},{55,0,0,0,},{40,0,0,0,},{8,0,0,0,},{9,0,0,0,},{49,0,0,0,},{49,0,0,0,},{52,0,0,0,},{17,0,0,0,},{17,0,0,0,},{17,0,0,0,},{4,13,0,0,},{0,13,0,0,},{20,13,0,0,},{17,0,0,0,},{60,13,60,13,},
{40,0,0,13,},{40,0,0,0,},{8,0,0,0,},{43,0,0,0,},{27,0,0,0,},{49,0,0,0,},{49,0,0,0,},{14,0,0,0,},{17,0,0,0,},{17,0,0,0,},{17,0,0,0,},{36,0,0,0,},{42,13,0,0,},{42,13,0,0,},{17,0,0,0,},{57,60,13,0,},
{57,0,13,0,},{40,0,0,0,},{8,0,0,0,},{26,0,0,0,},{27,0,0,0,},{49,0,0,0,},{12,0,0,0,},{14,0,0,0,},{17,0,0,0,},{17,0,0,0,},{17,0,0,0,},{36,0,0,0,},{0,0,13,0,},{38,0,13,0,},{36,13,0,0,},{1,60,0,0,},
{8,60,0,0,},{8,0,0,0,},{43,0,0,0,},{9,0,0,0,},{11,0,0,0,},{49,0,0,0,},{12,0,0,0,},{14,0,0,0,},{14,0,13,0,},{33,0,13,0,},{50,0,13,0,},{50,0,0,0,},{50,0,13,0,},{61,0,13,0,},{36,13,0,0,},{39,60,0,0,},
{8,60,0,0,},{8,0,0,0,},{43,0,0,0,},{46,0,0,0,},{49,0,0,0,},{52,0,0,0,},{30,0,0,0,},{14,0,0,0,},{14,0,13,0,},{33,0,13,0,},{50,0,13,0,},{50,0,13,0,},{50,13,13,0,},{50,13,0,0,},{18,13,13,0,},{25,60,13,0,},
{8,60,13,13,},{8,0,0,13,},{43,0,0,13,},{46,0,0,13,},{49,0,0,13,},{52,0,0,0,},{30,0,0,0,},{14,0,0,0,},{14,0,0,0,},{18,0,60,0,},{5,0,0,13,},{5,0,0,13,},{5,0,0,13,},{61,13,0,13,},{18,13,13,0,},{23,13,60,0,},
{43,13,0,13,},{43,0,0,13,},{43,0,0,13,},{9,0,0,13,},{49,0,0,13,},{52,0,0,0,},{3,0,0,0,},{14,0,0,0,},{14,0,0,0,},{50,0,0,0,},{50,13,13,0,},{50,13,13,0,},{50,13,13,0,},{61,0,0,0,},{17,13,13,0,},{24,60,13,0,},
{43,60,13,0,},{43,60,13,0,},{43,60,13,0,},{43,60,13,0,},{43,60,13,0,},{43,60,13,0,},{43,60,13,0,},{43,60,13,0,},{43,60,13,0,},{43,60,13,0,},{43,60,13,0,},{43,60,13,0,},{43,60,13,0,},{43,60,13,0,},{43,60,13,0,},{43,60,13,0,},
{43,60,13,0,},{43,0,0,0,},{43,0,19,0,},{9,0,0,0,},{11,0,0,0,},{52,0,0,0,},{52,0,0,0,},{14,0,0,0,},{14,0,0,0,},{17,0,0,0,},{61,13,0,0,},{61,13,0,0,},{61,13,0,0,},{54,0,0,0,},{17,0,13,13,},{39,13,13,0,},
{45,13,13,0,},{45,13,13,0,},{45,13,13,0,},{45,13,13,0,},{45,13,13,0,},{45,13,13,0,},{45,13,13,0,},{45,13,13,0,},{45,13,13,0,},{45,13,13,0,},{45,13,13,0,},{45,13,13,0,},{45,13,13,0,},{45,13,13,0,},{45,13,13,0,},{45,13,13,0,},
{45,13,13,0,},{45,0,13,0,},{44,0,13,0,},{27,0,0,0,},{29,0,0,0,},{52,0,0,0,},{48,0,0,0,},{52,0,0,0,},{52,0,0,0,},{17,0,0,0,},{17,0,0,0,},{17,0,19,0,},{17,0,13,0,},{2,0,13,0,},{17,0,13,0,},{7,13,0,0,},
{27,0,0,13,},{27,0,0,13,},{27,0,0,13,},{27,0,0,13,},{27,0,0,13,},{27,0,0,13,},{27,0,0,13,},{27,0,0,13,},{27,0,0,13,},{27,0,0,13,},{27,0,0,13,},{27,0,0,13,},{27,0,0,13,},{27,0,0,13,},{27,0,0,13,},{27,0,0,13,},
{27,0,0,13,},{27,0,0,13,},{9,0,0,13,},{27,0,0,13,},{27,0,0,13,},{12,0,0,13,},{52,0,0,13,},{14,0,0,13,},{14,0,0,13,},{58,0,0,13,},{41,0,0,13,},{41,0,0,13,},{41,0,0,13,},{6,0,0,13,},{17,60,0,13,},{37,0,19,13,},
{9,0,0,13,},{9,16,0,13,},{9,0,0,13,},{27,0,0,13,},{11,0,0,13,},{49,0,0,0,},{12,0,0,0,},{52,0,0,0,},{14,0,0,0,},{14,0,0,0,},{14,0,0,0,},{50,0,0,0,},{0,0,0,13,},{53,0,0,13,},{17,0,0,13,},{28,0,13,0,},
{52,0,13,0,},{52,0,13,0,},{49,0,13,0,},{52,0,0,0,},{12,0,0,0,},{52,0,0,0,},{30,0,0,0,},{14,0,0,0,},{14,0,0,0,},{17,0,0,0,},{2,0,0,0,},{2,0,0,0,},{2,0,0,0,},{38,0,0,0,},{38,0,0,0,},{34,0,0,0,},
},
},
{{{31,16,60,13,},{34,16,13,0,},{34,16,13,0,},{31,16,13,0,},{31,16,13,0,},{31,16,13,0,},{31,16,13,0,},{19,16,60,0,},{19,16,60,0,},{19,16,60,0,},{19,16,60,0,},{19,16,60,0,},{19,16,60,0,},{19,16,60,0,},{31,16,60,13,},{19,37,16,60,},
{44,0,0,60,},{44,0,0,0,},{62,0,0,0,},{30,0,0,0,},{32,0,0,0,},{58,0,0,0,},{35,0,0,0,},{36,0,0,0,},{36,0,0,0,},{38,13,0,0,},{0,13,0,0,},{59,13,0,0,},{7,13,0,0,},{7,13,0,0,},{39,13,0,0,},{34,60,13,0,},
{34,0,13,0,},{45,0,0,0,},{47,0,0,0,},{48,0,0,0,},{33,0,0,0,},{35,0,0,0,},{35,0,0,0,},{36,0,0,0,},{38,13,0,0,},{38,13,0,0,},{38,13,0,0,},{59,13,0,0,},{7,13,0,0,},{7,13,0,0,},{39,13,0,0,},{34,60,13,0,},
{34,0,13,0,},{62,0,0,0,},{30,0,0,0,},{15,0,0,0,},{50,0,0,0,},{53,0,0,0,},{53,0,0,0,},{54,13,0,0,},{21,13,0,0,},{21,13,0,0,},{21,13,0,0,},{59,13,0,0,},{7,13,0,0,},{7,13,0,0,},{7,13,0,0,},{34,60,13,0,},
{30,0,13,0,},{30,0,0,0,},{48,0,0,0,},{33,0,0,0,},{58,0,0,0,},{18,0,0,0,},{18,0,0,0,},{56,13,0,0,},{23,13,0,0,},{23,13,0,0,},{23,13,0,0,},{59,13,0,0,},{7,13,0,0,},{7,13,0,0,},{24,13,0,0,},{34,60,13,0,},
{34,0,13,0,},{6,0,0,0,},{6,0,0,0,},{58,0,0,0,},{53,0,0,0,},{54,0,0,0,},{54,0,0,0,},{21,13,0,0,},{59,13,0,0,},{59,13,0,0,},{59,13,0,0,},{39,13,0,0,},{7,13,0,0,},{7,13,0,0,},{42,60,0,0,},{34,16,13,0,},
{6,0,13,0,},{6,0,0,0,},{33,0,0,0,},{58,0,0,0,},{53,0,0,0,},{54,0,0,0,},{61,0,0,0,},{21,13,0,0,},{59,13,0,0,},{59,13,0,0,},{59,13,0,0,},{39,13,0,0,},{7,13,0,0,},{7,13,0,0,},{42,60,0,0,},{34,16,13,0,},
{34,0,13,0,},{51,0,0,0,},{51,0,0,0,},{53,0,0,0,},{54,0,0,0,},{56,13,0,0,},{56,13,0,0,},{57,13,0,0,},{39,13,0,0,},{39,13,0,0,},{39,13,0,0,},{7,13,0,0,},{42,13,0,0,},{42,13,0,0,},{25,60,0,0,},{31,16,13,0,},
{31,0,13,0,},{31,0,13,0,},{31,0,13,0,},{31,0,13,0,},{31,0,13,0,},{31,0,13,0,},{31,0,13,0,},{31,0,13,0,},{31,0,13,0,},{31,0,13,0,},{31,0,13,0,},{31,0,13,0,},{31,0,13,0,},{31,0,13,0,},{31,0,13,0,},{31,0,13,0,},
{31,0,13,0,},{4,0,0,0,},{4,0,0,0,},{4,0,0,0,},{5,13,0,0,},{23,13,0,0,},{23,13,0,0,},{39,13,0,0,},{7,13,0,0,},{7,13,0,0,},{7,13,0,0,},{42,13,0,0,},{25,13,0,0,},{25,13,0,0,},{22,60,0,0,},{31,16,60,0,},
{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},
{31,13,0,0,},{5,13,0,0,},{5,13,0,0,},{5,13,0,0,},{5,13,0,0,},{57,13,0,0,},{57,13,0,0,},{39,13,0,0,},{24,13,0,0,},{24,13,0,0,},{24,13,0,0,},{42,13,0,0,},{22,13,0,0,},{22,60,0,0,},{28,60,13,0,},{31,16,60,0,},
{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},{31,13,0,0,},
{31,13,0,0,},{41,13,0,0,},{41,13,0,0,},{41,13,0,0,},{41,13,0,0,},{39,13,0,0,},{39,13,0,0,},{7,13,0,0,},{42,13,0,0,},{42,13,0,0,},{42,13,0,0,},{25,13,0,0,},{28,13,0,0,},{28,60,0,0,},{28,60,13,0,},{31,16,60,13,},
{31,13,0,0,},{41,13,0,0,},{41,13,0,0,},{41,13,0,0,},{41,13,0,0,},{39,13,0,0,},{39,13,0,0,},{24,13,0,0,},{25,60,0,0,},{25,60,0,0,},{25,60,0,0,},{22,60,0,0,},{28,60,0,0,},{28,60,0,0,},{34,60,13,0,},{31,16,60,13,},
{31,60,13,13,},{10,60,13,0,},{10,60,13,0,},{10,60,13,0,},{10,60,13,0,},{10,60,13,0,},{10,60,13,0,},{28,60,13,0,},{34,60,13,0,},{34,60,13,0,},{34,16,13,0,},{34,16,13,0,},{34,16,60,0,},{34,16,60,0,},{31,16,60,0,},{19,37,16,13,},
},
{{8,0,16,0,},{8,0,16,0,},{8,0,16,0,},{8,0,16,0,},{8,0,16,0,},{8,0,16,0,},{8,0,16,0,},{8,0,16,0,},{8,0,16,0,},{8,0,16,0,},{8,0,16,0,},{8,0,16,0,},{8,0,16,0,},{8,0,16,0,},{8,0,16,0,},{8,0,16,0,},
{8,0,16,0,},{8,0,0,0,},{9,0,0,0,},{11,0,0,0,},{47,0,0,0,},{32,0,0,0,},{50,0,0,0,},{18,0,0,0,},{18,0,0,0,},{20,0,0,0,},{21,0,0,0,},{21,0,0,0,},{21,13,0,0,},{39,13,0,0,},{59,13,0,0,},{34,16,60,0,},
{26,0,0,0,},{26,0,0,0,},{27,0,0,0,},{29,0,0,0,},{30,0,0,0,},{33,0,0,0,},{50,0,0,0,},{18,0,0,0,},{18,0,0,0,},{20,0,0,0,},{57,0,0,0,},{57,13,0,0,},{57,13,0,0,},{59,13,0,0,},{59,13,0,0,},{34,16,60,0,},
{27,0,0,0,},{27,0,0,0,},{11,0,0,0,},{12,0,0,0,},{48,0,0,0,},{50,0,0,0,},{58,0,0,0,},{61,0,0,0,},{61,0,0,0,},{56,0,0,0,},{57,13,0,0,},{57,13,0,0,},{57,13,0,0,},{59,13,0,0,},{39,13,0,0,},{34,16,60,0,},
{45,0,0,0,},{45,0,0,0,},{12,0,0,0,},{30,0,0,0,},{32,0,0,0,},{2,0,0,0,},{2,0,0,0,},{61,0,0,0,},{38,0,0,0,},{38,0,0,0,},{38,13,0,0,},{57,13,0,0,},{0,13,0,0,},{59,13,0,0,},{39,13,0,0,},{34,16,60,0,},
{63,0,0,0,},{63,0,0,0,},{3,0,0,0,},{32,0,0,0,},{58,0,0,0,},{18,0,0,0,},{18,0,0,0,},{20,0,0,0,},{21,0,0,0,},{21,0,0,0,},{21,13,0,0,},{59,13,0,0,},{39,13,0,0,},{39,13,0,0,},{7,13,13,0,},{31,16,60,0,},
{31,0,0,0,},{3,0,0,0,},{3,0,0,0,},{33,0,0,0,},{58,0,0,0,},{18,0,0,0,},{18,0,0,0,},{20,0,0,0,},{21,0,0,0,},{21,0,0,0,},{21,13,0,0,},{59,13,0,0,},{7,13,0,0,},{7,13,0,0,},{7,13,13,0,},{31,16,60,0,},
{6,0,0,0,},{6,0,0,0,},{51,0,0,0,},{51,0,0,0,},{53,0,0,0,},{54,0,0,0,},{54,0,0,0,},{38,0,0,0,},{57,13,0,0,},{57,13,0,0,},{57,13,0,0,},{39,13,0,0,},{7,13,0,0,},{7,13,0,0,},{42,60,13,0,},{31,16,60,0,},
{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},
{31,0,0,0,},{51,0,0,0,},{53,0,0,0,},{53,0,0,0,},{54,0,0,0,},{56,0,0,0,},{56,0,0,0,},{57,13,0,0,},{59,13,0,0,},{59,13,0,0,},{59,13,0,0,},{7,13,0,0,},{24,13,0,0,},{24,13,0,0,},{25,60,13,0,},{31,16,60,0,},
{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},{31,0,0,0,},
{31,0,0,0,},{4,0,0,0,},{4,0,0,0,},{4,0,0,0,},{54,0,0,0,},{21,13,0,0,},{21,0,0,0,},{57,13,0,0,},{39,13,0,0,},{39,13,0,0,},{39,13,0,0,},{7,13,0,0,},{42,13,13,0,},{42,13,13,0,},{22,60,13,0,},{31,16,60,0,},
{31,16,0,0,},{31,16,0,0,},{31,16,0,0,},{31,16,0,0,},{31,16,0,0,},{31,16,0,0,},{31,16,0,0,},{31,16,0,0,},{31,16,0,0,},{31,16,0,0,},{31,16,0,0,},{31,16,0,0,},{31,16,0,0,},{31,16,0,0,},{31,16,0,0,},{31,16,0,0,},
{31,16,0,0,},{5,0,0,0,},{5,0,0,0,},{5,0,0,0,},{5,13,0,0,},{23,13,0,0,},{23,13,0,0,},{59,13,0,0,},{7,13,0,0,},{7,13,0,0,},{7,13,13,0,},{42,13,13,0,},{22,60,13,0,},{22,60,13,0,},{28,60,13,0,},{31,16,60,0,},
{31,13,0,0,},{4,13,0,0,},{4,13,0,0,},{4,13,0,0,},{5,13,0,0,},{23,13,0,0,},{23,13,0,0,},{39,13,13,0,},{24,60,13,0,},{24,60,13,0,},{24,60,13,0,},{25,60,13,0,},{28,60,13,0,},{28,60,13,0,},{34,16,13,0,},{31,16,60,0,},
{31,16,13,0,},{10,16,13,0,},{10,16,13,0,},{10,16,13,0,},{10,16,13,0,},{10,16,60,0,},{10,16,60,0,},{28,16,60,0,},{34,16,60,0,},{34,16,60,0,},{34,16,60,0,},{31,16,60,0,},{31,16,60,0,},{31,16,60,0,},{31,16,60,0,},{19,37,60,0,},
},
},
};
static const float cnum_0_0[12]={0x1.3468c4p-1,0x1.add5cep-2,-0x1.34948cp-6,0x0p+0};
static const float cden_0_0[12]={0x1.add5cep-3,0x1.2ac42p-1,0x1.add5cep-3,0x0p+0};
static const float cnum_0_1[12]={0x1.32eea2p-1,0x1.add5cep-2,-0x1.055024p-6,0x0p+0};
static const float cden_0_1[12]={0x1.b644c8p-4,0x1.19a36ep-1,0x1.57bf48p-2,0x1.b70432p-8};
static const float cnum_0_2[12]={0x1.318cbp-1,0x1.add5cep-2,-0x1.b223cp-7,0x0p+0};
static const float cden_0_2[12]={0x1.44fc6ep-5,0x1.d63e02p-2,0x1.d63e02p-2,0x1.44fc6ep-5};
static const float cnum_0_3[12]={0x1.30405cp-1,0x1.add5cep-2,-0x1.5f0ed2p-7,0x0p+0};
static const float cden_0_3[12]={0x1.b70432p-8,0x1.57bf48p-2,0x1.19a36ep-1,0x1.b644c8p-4};
static const float cnum_1_0[12]={0x1.3468c4p-1,0x1.add5cep-2,-0x1.34948cp-6,0x0p+0};
static const float cden_1_0[12]={0x1.add5cep-3,0x1.2ac42p-1,0x1.add5cep-3,0x0p+0};
static const float cnum_1_1[12]={0x1.32eea2p-1,0x1.add5cep-2,-0x1.055024p-6,0x0p+0};
static const float cden_1_1[12]={0x1.b644c8p-4,0x1.19a36ep-1,0x1.57bf48p-2,0x1.b70432p-8};
static const float cnum_1_2[12]={0x1.318cbp-1,0x1.add5cep-2,-0x1.b223cp-7,0x0p+0};
static const float cden_1_2[12]={0x1.44fc6ep-5,0x1.d63e02p-2,0x1.d63e02p-2,0x1.44fc6ep-5};
static const float cnum_1_3[12]={0x1.30405cp-1,0x1.add5cep-2,-0x1.5f0ed2p-7,0x0p+0};
static const float cden_1_3[12]={0x1.b70432p-8,0x1.57bf48p-2,0x1.19a36ep-1,0x1.b644c8p-4};
static const float cnum_2_0[12]={0x1.988b7ap-2,0x1.074be4p-1,0x1.9b653p-4,-0x1.a31166p-7,-0x1.9c29eep-10,0x0p+0};
static const float cden_2_0[12]={0x1.02f568p-4,0x1.00bf9ep-2,0x1.7c4de8p-2,0x1.00bf9ep-2,0x1.02f568p-4,0x0p+0};
static const float cnum_2_1[12]={0x1.945718p-2,0x1.0656ecp-1,0x1.ab4aeap-4,-0x1.65d398p-7,-0x1.61370ap-10,0x0p+0};
static const float cden_2_1[12]={0x1.1b6232p-5,0x1.96d6a2p-3,0x1.735836p-2,0x1.31d7ep-2,0x1.9ef67cp-4,0x1.176a64p-8};
static const float cnum_2_2[12]={0x1.905e3ap-2,0x1.056e1p-1,0x1.ba4ca6p-4,-0x1.2b9ca8p-7,-0x1.28c798p-10,0x0p+0};
static const float cden_2_2[12]={0x1.f73bc6p-7,0x1.2df222p-3,0x1.59863p-2,0x1.59863p-2,0x1.2df222p-3,0x1.f73bc6p-7};
static const float cnum_2_3[12]={0x1.8c9ad6p-2,0x1.049024p-1,0x1.c8819ep-4,-0x1.e84314p-8,-0x1.e54168p-11,0x0p+0};
static const float cden_2_3[12]={0x1.176a64p-8,0x1.9ef67cp-4,0x1.31d7ep-2,0x1.735836p-2,0x1.96d6a2p-3,0x1.1b6232p-5};
static const float cnum_3_0[12]={0x1.31654ap-2,0x1.dc729ap-2,0x1.af4eecp-3,0x1.34931cp-5,-0x1.4cd2c4p-7,-0x1.4c620cp-9,-0x1.4dc19p-12,0x0p+0};
static const float cden_3_0[12]={0x1.db33acp-6,0x1.ceca24p-4,0x1.c505c4p-3,0x1.16eda8p-2,0x1.c505c4p-3,0x1.ceca24p-4,0x1.db33acp-6,0x0p+0};
static const float cnum_3_1[12]={0x1.2d72d8p-2,0x1.d90406p-2,0x1.b41d56p-3,0x1.4d19dep-5,-0x1.1cdc74p-7,-0x1.1d83dcp-9,-0x1.1f9cd8p-12,0x0p+0};
static const float cden_3_1[12]={0x1.170b6ep-6,0x1.654614p-4,0x1.91b242p-3,0x1.1360c2p-2,0x1.f0a3cap-3,0x1.1fe702p-3,0x1.6e94fap-5,0x1.99ddbap-9};
static const float cnum_3_2[12]={0x1.29b8c6p-2,0x1.d5c19p-2,0x1.b89e4ep-3,0x1.645c5p-5,-0x1.de1e1ap-8,-0x1.e0e036p-10,-0x1.e5e4b4p-13,0x0p+0};
static const float cden_3_2[12]={0x1.189d4ep-7,0x1.0737d4p-4,0x1.59a2dep-3,0x1.08f458p-2,0x1.08f458p-2,0x1.59a2dep-3,0x1.0737d4p-4,0x1.189d4ep-7};
static const float cnum_3_3[12]={0x1.263156p-2,0x1.d2a6ecp-2,0x1.bcda02p-3,0x1.7a7a4ap-5,-0x1.866da8p-8,-0x1.89fc36p-10,-0x1.8f4446p-13,0x0p+0};
static const float cden_3_3[12]={0x1.99ddbap-9,0x1.6e94fap-5,0x1.1fe702p-3,0x1.f0a3cap-3,0x1.1360c2p-2,0x1.91b242p-3,0x1.654614p-4,0x1.170b6ep-6};
static const float cnum_4_0[12]={0x1.95c886p-3,0x1.68e884p-2,0x1.016704p-2,0x1.23aa48p-3,0x1.d354e2p-5,0x1.308668p-7,-0x1.d99096p-8,-0x1.9fd978p-9,
-0x1.261524p-10,-0x1.3065aap-12,-0x1.664312p-15,0x0p+0};
static const float cden_4_0[12]={0x1.62aae2p-7,0x1.27a592p-5,0x1.3a6ce8p-4,0x1.fc87eap-4,0x1.4d54eep-3,0x1.6be1fep-3,0x1.4d54eep-3,0x1.fc87eap-4,
0x1.3a6ce8p-4,0x1.27a592p-5,0x1.62aae2p-7,0x0p+0};
static const float cnum_4_1[12]={0x1.8f815ap-3,0x1.64d448p-2,0x1.0105d8p-2,0x1.2726aep-3,0x1.e5b30ap-5,0x1.6b5f46p-7,-0x1.95dbc2p-8,-0x1.65650ep-9,
-0x1.fad5f8p-11,-0x1.06fe52p-12,-0x1.365f94p-15,0x0p+0};
static const float cden_4_1[12]={0x1.cd772cp-8,0x1.cdfae4p-6,0x1.0c2abep-4,0x1.cca7e4p-4,0x1.3d1dcp-3,0x1.69e81cp-3,0x1.5a6bb2p-3,0x1.151302p-3,
0x1.6a8decp-4,0x1.70964ap-5,0x1.fe661cp-7,0x1.0b59b6p-9};
static const float cnum_4_2[12]={0x1.899632p-3,0x1.60f79cp-2,0x1.00a30ep-2,0x1.2a6a22p-3,0x1.f714ep-5,0x1.a36944p-7,-0x1.5507f4p-8,-0x1.2d1d6cp-9,
-0x1.ac1cfp-11,-0x1.bd67a4p-13,-0x1.07824ap-15,0x0p+0};
static const float cden_4_2[12]={0x1.0fc716p-8,0x1.5dec28p-6,0x1.c1254cp-5,0x1.9ba2e4p-4,0x1.2a338p-3,0x1.64085p-3,0x1.64085p-3,0x1.2a338p-3,
0x1.9ba2e4p-4,0x1.c1254cp-5,0x1.5dec28p-6,0x1.0fc716p-8};
static const float cnum_4_3[12]={0x1.83fd98p-3,0x1.5d4cf8p-2,0x1.003f18p-2,0x1.2d7aa2p-3,0x1.03c9b2p-4,0x1.d8e8aep-7,-0x1.16d1dp-8,-0x1.eda376p-10,
-0x1.5fc6fcp-11,-0x1.6ede3ap-13,-0x1.b32da4p-16,0x0p+0};
static const float cden_4_3[12]={0x1.0b59b6p-9,0x1.fe661cp-7,0x1.70964ap-5,0x1.6a8decp-4,0x1.151302p-3,0x1.5a6bb2p-3,0x1.69e81cp-3,0x1.3d1dcp-3,
0x1.cca7e4p-4,0x1.0c2abep-4,0x1.cdfae4p-6,0x1.cd772cp-8};
static const float*const LTPF_CNUM[5][4]={{cnum_0_0,cnum_0_1,cnum_0_2,cnum_0_3,},{cnum_1_0,cnum_1_1,cnum_1_2,cnum_1_3,},{cnum_2_0,cnum_2_1,cnum_2_2,cnum_2_3,},{cnum_3_0,cnum_3_1,cnum_3_2,cnum_3_3,},{cnum_4_0,cnum_4_1,cnum_4_2,cnum_4_3,},};
static const float*const LTPF_CDEN[5][4]={{cden_0_0,cden_0_1,cden_0_2,cden_0_3,},{cden_1_0,cden_1_1,cden_1_2,cden_1_3,},{cden_2_0,cden_2_1,cden_2_2,cden_2_3,},{cden_3_0,cden_3_1,cden_3_2,cden_3_3,},{cden_4_0,cden_4_1,cden_4_2,cden_4_3,},};
static const int16_t h_8k_12k8_q15[8*10] = {
      214,   417, -1052, -4529, 26233, -4529, -1052,   417,   214,     0,
      180,     0, -1522, -2427, 24506, -5289,     0,   763,   156,   -28,
       92,  -323, -1361,     0, 19741, -3885,  1317,   861,     0,   -61,
        0,  -457,  -752,  1873, 13068,     0,  2389,   598,  -213,   -79,
      -61,  -398,     0,  2686,  5997,  5997,  2686,     0,  -398,   -61,
      -79,  -213,   598,  2389,     0, 13068,  1873,  -752,  -457,     0,
      -61,     0,   861,  1317, -3885, 19741,     0, -1361,  -323,    92,
      -28,   156,   763,     0, -5289, 24506, -2427, -1522,     0,   180,
};

static const int16_t h_16k_12k8_q15[4*20] = {
      -61,   214,  -398,   417,     0, -1052,  2686, -4529,  5997, 26233,
     5997, -4529,  2686, -1052,     0,   417,  -398,   214,   -61,     0,

      -79,   180,  -213,     0,   598, -1522,  2389, -2427,     0, 24506,
    13068, -5289,  1873,     0,  -752,   763,  -457,   156,     0,   -28,

      -61,    92,     0,  -323,   861, -1361,  1317,     0, -3885, 19741,
    19741, -3885,     0,  1317, -1361,   861,  -323,     0,    92,   -61,

      -28,     0,   156,  -457,   763,  -752,     0,  1873, -5289, 13068,
    24506,     0, -2427,  2389, -1522,   598,     0,  -213,   180,   -79,
};

static const int16_t h_32k_12k8_q15[2*40] = {
      -30,   -31,    46,   107,     0,  -199,  -162,   209,   430,     0,
     -681,  -526,   658,  1343,     0, -2264, -1943,  2999,  9871, 13116,
     9871,  2999, -1943, -2264,     0,  1343,   658,  -526,  -681,     0,
      430,   209,  -162,  -199,     0,   107,    46,   -31,   -30,     0,

      -14,   -39,     0,    90,    78,  -106,  -229,     0,   382,   299,
     -376,  -761,     0,  1194,   937, -1214, -2644,     0,  6534, 12253,
    12253,  6534,     0, -2644, -1214,   937,  1194,     0,  -761,  -376,
      299,   382,     0,  -229,  -106,    78,    90,     0,   -39,   -14,
};

static const int16_t h_24k_12k8_q15[8*30] = {
      -50,    19,   143,   -93,  -290,   278,   485,  -658,  -701,  1396,
      901, -3019, -1042, 10276, 17488, 10276, -1042, -3019,   901,  1396,
     -701,  -658,   485,   278,  -290,   -93,   143,    19,   -50,     0,

      -46,     0,   141,   -45,  -305,   185,   543,  -501,  -854,  1153,
     1249, -2619, -1908,  8712, 17358, 11772,     0, -3319,   480,  1593,
     -504,  -796,   399,   367,  -261,  -142,   138,    40,   -52,    -5,

      -41,   -17,   133,     0,  -304,    91,   574,  -334,  -959,   878,
     1516, -2143, -2590,  7118, 16971, 13161,  1202, -3495,     0,  1731,
     -267,  -908,   287,   445,  -215,  -188,   125,    62,   -52,   -12,

      -34,   -30,   120,    41,  -291,     0,   577,  -164, -1015,   585,
     1697, -1618, -3084,  5534, 16337, 14406,  2544, -3526,  -523,  1800,
        0,  -985,   152,   509,  -156,  -230,   104,    83,   -48,   -19,

      -26,   -41,   103,    76,  -265,   -83,   554,     0, -1023,   288,
     1791, -1070, -3393,  3998, 15474, 15474,  3998, -3393, -1070,  1791,
      288, -1023,     0,   554,   -83,  -265,    76,   103,   -41,   -26,

      -19,   -48,    83,   104,  -230,  -156,   509,   152,  -985,     0,
     1800,  -523, -3526,  2544, 14406, 16337,  5534, -3084, -1618,  1697,
      585, -1015,  -164,   577,     0,  -291,    41,   120,   -30,   -34,

      -12,   -52,    62,   125,  -188,  -215,   445,   287,  -908,  -267,
     1731,     0, -3495,  1202, 13161, 16971,  7118, -2590, -2143,  1516,
      878,  -959,  -334,   574,    91,  -304,     0,   133,   -17,   -41,

       -5,   -52,    40,   138,  -142,  -261,   367,   399,  -796,  -504,
     1593,   480, -3319,     0, 11772, 17358,  8712, -1908, -2619,  1249,
     1153,  -854,  -501,   543,   185,  -305,   -45,   141,     0,   -46,
};

static const int16_t h_48k_12k8_q15[4*60] = {
      -13,   -25,   -20,    10,    51,    71,    38,   -47,  -133,  -145,
      -42,   139,   277,   242,     0,  -329,  -511,  -351,   144,   698,
      895,   450,  -535, -1510, -1697,  -521,  1999,  5138,  7737,  8744,
     7737,  5138,  1999,  -521, -1697, -1510,  -535,   450,   895,   698,
      144,  -351,  -511,  -329,     0,   242,   277,   139,   -42,  -145,
     -133,   -47,    38,    71,    51,    10,   -20,   -25,   -13,     0,

       -9,   -23,   -24,     0,    41,    71,    52,   -23,  -115,  -152,
      -78,    92,   254,   272,    76,  -251,  -493,  -427,     0,   576,
      900,   624,  -262, -1309, -1763,  -954,  1272,  4356,  7203,  8679,
     8169,  5886,  2767,     0, -1542, -1660,  -809,   240,   848,   796,
      292,  -252,  -507,  -398,   -82,   199,   288,   183,     0,  -130,
     -145,   -71,    20,    69,    60,    20,   -15,   -26,   -17,    -3,

       -6,   -20,   -26,    -8,    31,    67,    62,     0,   -94,  -152,
     -108,    45,   223,   287,   143,  -167,  -454,  -480,  -134,   439,
      866,   758,     0, -1071, -1748, -1295,   601,  3559,  6580,  8485,
     8485,  6580,  3559,   601, -1295, -1748, -1071,     0,   758,   866,
      439,  -134,  -480,  -454,  -167,   143,   287,   223,    45,  -108,
     -152,   -94,     0,    62,    67,    31,    -8,   -26,   -20,    -6,

       -3,   -17,   -26,   -15,    20,    60,    69,    20,   -71,  -145,
     -130,     0,   183,   288,   199,   -82,  -398,  -507,  -252,   292,
      796,   848,   240,  -809, -1660, -1542,     0,  2767,  5886,  8169,
     8679,  7203,  4356,  1272,  -954, -1763, -1309,  -262,   624,   900,
      576,     0,  -427,  -493,  -251,    76,   272,   254,    92,   -78,
     -152,  -115,   -23,    52,    71,    41,     0,   -24,   -23,    -9,
};

static const int16_t h_96k_12k8_q15[2*120] = {
       -3,    -7,   -10,   -13,   -13,   -10,    -4,     5,    15,    26,
       33,    36,    31,    19,     0,   -23,   -47,   -66,   -76,   -73,
      -54,   -21,    23,    70,   111,   139,   143,   121,    72,     0,
      -84,  -165,  -227,  -256,  -240,  -175,   -67,    72,   219,   349,
      433,   448,   379,   225,     0,  -268,  -536,  -755,  -874,  -848,
     -648,  -260,   301,  1000,  1780,  2569,  3290,  3869,  4243,  4372,
     4243,  3869,  3290,  2569,  1780,  1000,   301,  -260,  -648,  -848,
     -874,  -755,  -536,  -268,     0,   225,   379,   448,   433,   349,
      219,    72,   -67,  -175,  -240,  -256,  -227,  -165,   -84,     0,
       72,   121,   143,   139,   111,    70,    23,   -21,   -54,   -73,
      -76,   -66,   -47,   -23,     0,    19,    31,    36,    33,    26,
       15,     5,    -4,   -10,   -13,   -13,   -10,    -7,    -3,     0,

       -1,    -5,    -8,   -12,   -13,   -12,    -8,     0,    10,    21,
       30,    35,    34,    26,    10,   -11,   -35,   -58,   -73,   -76,
      -65,   -39,     0,    46,    92,   127,   144,   136,   100,    38,
      -41,  -125,  -199,  -246,  -254,  -214,  -126,     0,   146,   288,
      398,   450,   424,   312,   120,  -131,  -405,  -655,  -830,  -881,
     -771,  -477,     0,   636,  1384,  2178,  2943,  3601,  4084,  4340,
     4340,  4084,  3601,  2943,  2178,  1384,   636,     0,  -477,  -771,
     -881,  -830,  -655,  -405,  -131,   120,   312,   424,   450,   398,
      288,   146,     0,  -126,  -214,  -254,  -246,  -199,  -125,   -41,
       38,   100,   136,   144,   127,    92,    46,     0,   -39,   -65,
      -76,   -73,   -58,   -35,   -11,    10,    26,    34,    35,    30,
       21,    10,     0,    -8,   -12,   -13,   -12,    -8,    -5,    -1,
};
