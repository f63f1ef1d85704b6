// Code generated by cmd/fixgen. DO NOT EDIT.

package fixtures

import (
	"reflect"

	"verif/sch"
)

const model = "[{\"name\":\"S0M1\",\"u\":3,\"f\":[{\"n\":\"f995\",\"i\":995,\"k\":8,\"s\":5,\"y\":15},{\"n\":\"f4\",\"i\":4,\"k\":2,\"s\":1},{\"n\":\"f14\",\"i\":14,\"k\":17,\"s\":1}]},{\"name\":\"S1M1\",\"u\":4,\"f\":[{\"n\":\"f1003\",\"i\":1003,\"k\":7},{\"n\":\"f1001\",\"i\":1001,\"k\":5},{\"n\":\"f13\",\"i\":13,\"k\":1},{\"n\":\"f20000\",\"i\":20000,\"k\":14},{\"n\":\"f3\",\"i\":3,\"k\":17,\"s\":4,\"p\":true},{\"n\":\"f2048\",\"i\":2048,\"k\":11,\"s\":1,\"m\":70,\"v\":true},{\"n\":\"f520\",\"i\":520,\"k\":18,\"s\":5,\"y\":5},{\"n\":\"f11\",\"i\":11,\"k\":11,\"s\":4,\"m\":72,\"v\":true},{\"n\":\"f730\",\"i\":730,\"k\":11,\"s\":1,\"m\":71,\"v\":true}]},{\"name\":\"S2M1\",\"o\":1,\"u\":4,\"f\":[{\"n\":\"f8\",\"i\":8,\"k\":16},{\"n\":\"f33554431\",\"i\":33554431,\"k\":4,\"s\":5,\"y\":5},{\"n\":\"f583\",\"i\":583,\"k\":5,\"s\":4},{\"n\":\"f529560179\",\"i\":529560179,\"k\":12,\"s\":1},{\"n\":\"f925\",\"i\":925,\"k\":3,\"s\":1},{\"n\":\"f3\",\"i\":3,\"k\":3,\"s\":6},{\"n\":\"f32\",\"i\":32,\"k\":2},{\"n\":\"f21\",\"i\":21,\"k\":14},{\"n\":\"f20\",\"i\":20,\"k\":11,\"s\":1,\"m\":74},{\"n\":\"f529087246\",\"i\":529087246,\"k\":7,\"s\":5,\"y\":5}]},{\"name\":\"S3M1\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f146\",\"i\":146,\"k\":5,\"s\":1},{\"n\":\"f37\",\"i\":37,\"k\":2,\"s\":6},{\"n\":\"f1\",\"i\":1,\"k\":14},{\"n\":\"f219\",\"i\":219,\"k\":16},{\"n\":\"f1000\",\"i\":1000,\"k\":2,\"s\":5,\"y\":18},{\"n\":\"f719\",\"i\":719,\"k\":11,\"s\":1,\"m\":78},{\"n\":\"f16\",\"i\":16,\"k\":4,\"s\":1},{\"n\":\"f18999\",\"i\":18999,\"k\":3,\"s\":6}]},{\"name\":\"S4M1\",\"u\":2,\"f\":[{\"n\":\"f10\",\"i\":10,\"k\":6},{\"n\":\"f1\",\"i\":1,\"k\":11,\"s\":4,\"m\":82,\"v\":true},{\"n\":\"f706\",\"i\":706,\"k\":1,\"s\":4},{\"n\":\"f367\",\"i\":367,\"k\":3,\"s\":4},{\"n\":\"f262143\",\"i\":262143,\"k\":11,\"s\":1,\"m\":84},{\"n\":\"f32\",\"i\":32,\"k\":3,\"s\":5,\"y\":5}]},{\"name\":\"S5M1\",\"o\":1,\"u\":2,\"f\":[{\"n\":\"f1003\",\"i\":1003,\"k\":11,\"s\":6,\"m\":85}]},{\"name\":\"S6M1\",\"o\":1,\"f\":[{\"n\":\"f5\",\"i\":5,\"k\":11,\"s\":5,\"y\":6,\"m\":86,\"v\":true},{\"n\":\"f2048\",\"i\":2048,\"k\":3,\"s\":1},{\"n\":\"f1005\",\"i\":1005,\"k\":3,\"s\":5,\"y\":3},{\"n\":\"f821\",\"i\":821,\"k\":11,\"s\":6,\"m\":86},{\"n\":\"f1003\",\"i\":1003,\"k\":18,\"s\":4,\"p\":true},{\"n\":\"f2047\",\"i\":2047,\"k\":11,\"s\":1,\"m\":89,\"v\":true}]},{\"name\":\"S7M1\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f130\",\"i\":130,\"k\":11,\"s\":4,\"m\":93,\"v\":true},{\"n\":\"f18\",\"i\":18,\"k\":15,\"s\":6},{\"n\":\"f377708450\",\"i\":377708450,\"k\":18}]},{\"name\":\"S8M1\",\"o\":2,\"u\":3,\"f\":[{\"n\":\"f3\",\"i\":3,\"k\":3},{\"n\":\"f10\",\"i\":10,\"k\":13,\"s\":6},{\"n\":\"f9\",\"i\":9,\"k\":9,\"s\":6,\"o\":1},{\"n\":\"f2048\",\"i\":2048,\"k\":11,\"s\":1,\"m\":96,\"v\":true},{\"n\":\"f4\",\"i\":4,\"k\":16,\"s\":4,\"p\":true},{\"n\":\"f5\",\"i\":5,\"k\":15,\"s\":5,\"y\":7}]},{\"name\":\"S9M1\",\"o\":1,\"u\":4,\"f\":[{\"n\":\"f1006\",\"i\":1006,\"k\":16,\"s\":6},{\"n\":\"f1003\",\"i\":1003,\"k\":11,\"s\":1,\"m\":100},{\"n\":\"f27\",\"i\":27,\"k\":12,\"s\":6},{\"n\":\"f5\",\"i\":5,\"k\":6},{\"n\":\"f1007\",\"i\":1007,\"k\":11,\"s\":6,\"m\":102},{\"n\":\"f4\",\"i\":4,\"k\":16,\"s\":5,\"y\":5},{\"n\":\"f2047\",\"i\":2047,\"k\":11,\"s\":1,\"m\":103,\"v\":true},{\"n\":\"f39\",\"i\":39,\"k\":4,\"s\":5,\"y\":17},{\"n\":\"f11\",\"i\":11,\"k\":7}]},{\"name\":\"S10M1\",\"u\":2,\"f\":[{\"n\":\"f250\",\"i\":250,\"k\":11,\"s\":1,\"m\":104},{\"n\":\"f1\",\"i\":1,\"k\":13,\"s\":1},{\"n\":\"f7\",\"i\":7,\"k\":13},{\"n\":\"f262144\",\"i\":262144,\"k\":3,\"s\":4,\"p\":true}]},{\"name\":\"S11M1\",\"u\":3,\"f\":[{\"n\":\"f13\",\"i\":13,\"k\":18,\"s\":1},{\"n\":\"f9\",\"i\":9,\"k\":1},{\"n\":\"f1\",\"i\":1,\"k\":12,\"s\":4}]},{\"name\":\"S12M1\",\"u\":4,\"f\":[{\"n\":\"f15\",\"i\":15,\"k\":17,\"s\":1},{\"n\":\"f536870910\",\"i\":536870910,\"k\":16}]},{\"name\":\"S13M1\",\"u\":2,\"f\":[{\"n\":\"f10\",\"i\":10,\"k\":13}]},{\"name\":\"S14M1\",\"o\":1,\"f\":[{\"n\":\"f4\",\"i\":4,\"k\":4},{\"n\":\"f3\",\"i\":3,\"k\":6},{\"n\":\"f843\",\"i\":843,\"k\":3,\"s\":6},{\"n\":\"f18999\",\"i\":18999,\"k\":4},{\"n\":\"f15\",\"i\":15,\"k\":15}]},{\"name\":\"S15M1\",\"u\":2,\"f\":[{\"n\":\"f383\",\"i\":383,\"k\":5,\"s\":1},{\"n\":\"f12\",\"i\":12,\"k\":18,\"s\":5,\"y\":15},{\"n\":\"f903\",\"i\":903,\"k\":12,\"s\":1}]},{\"name\":\"S16M1\",\"o\":1,\"u\":3,\"f\":[{\"n\":\"f2\",\"i\":2,\"k\":9,\"s\":5,\"y\":3},{\"n\":\"f584\",\"i\":584,\"k\":1,\"s\":1},{\"n\":\"f11\",\"i\":11,\"k\":13,\"s\":1},{\"n\":\"f1000\",\"i\":1000,\"k\":11,\"s\":6,\"m\":106},{\"n\":\"f12\",\"i\":12,\"k\":2,\"s\":1},{\"n\":\"f7\",\"i\":7,\"k\":11,\"s\":1,\"m\":107,\"v\":true},{\"n\":\"f6\",\"i\":6,\"k\":2},{\"n\":\"f1004\",\"i\":1004,\"k\":11,\"s\":1,\"m\":108},{\"n\":\"f262143\",\"i\":262143,\"k\":6,\"s\":6},{\"n\":\"f5\",\"i\":5,\"k\":2,\"s\":1}]},{\"name\":\"S17M1\",\"o\":1,\"u\":3,\"f\":[{\"n\":\"f234\",\"i\":234,\"k\":17,\"s\":4,\"p\":true},{\"n\":\"f1\",\"i\":1,\"k\":11,\"s\":1,\"m\":109},{\"n\":\"f20000\",\"i\":20000,\"k\":7,\"s\":6},{\"n\":\"f943\",\"i\":943,\"k\":15,\"s\":1},{\"n\":\"f666\",\"i\":666,\"k\":13,\"s\":1},{\"n\":\"f2\",\"i\":2,\"k\":16},{\"n\":\"f3\",\"i\":3,\"k\":11,\"s\":4,\"m\":113,\"v\":true}]},{\"name\":\"S18M1\",\"o\":2,\"u\":1,\"f\":[{\"n\":\"f8\",\"i\":8,\"k\":1,\"s\":6},{\"n\":\"f60\",\"i\":60,\"k\":11,\"s\":5,\"y\":3,\"m\":115},{\"n\":\"f134\",\"i\":134,\"k\":11,\"s\":1,\"m\":116},{\"n\":\"f13001285\",\"i\":13001285,\"k\":11,\"s\":6,\"m\":117,\"o\":1},{\"n\":\"f536870911\",\"i\":536870911,\"k\":12,\"s\":6,\"o\":1},{\"n\":\"f7\",\"i\":7,\"k\":2,\"s\":5,\"y\":18},{\"n\":\"f12\",\"i\":12,\"k\":13,\"s\":1},{\"n\":\"f1\",\"i\":1,\"k\":12,\"s\":5,\"y\":18},{\"n\":\"f231\",\"i\":231,\"k\":11,\"s\":1,\"m\":119}]},{\"name\":\"S19M1\",\"u\":1,\"f\":[{\"n\":\"f573\",\"i\":573,\"k\":4,\"s\":4},{\"n\":\"f517791607\",\"i\":517791607,\"k\":11,\"s\":5,\"y\":6,\"m\":121},{\"n\":\"f1001\",\"i\":1001,\"k\":4,\"s\":4,\"p\":true},{\"n\":\"f285\",\"i\":285,\"k\":7,\"s\":5,\"y\":8}]},{\"name\":\"S20M1\",\"f\":[{\"n\":\"f11\",\"i\":11,\"k\":3,\"s\":1},{\"n\":\"f18999\",\"i\":18999,\"k\":15},{\"n\":\"f536870910\",\"i\":536870910,\"k\":9,\"s\":1},{\"n\":\"f262144\",\"i\":262144,\"k\":1,\"s\":4},{\"n\":\"f1002\",\"i\":1002,\"k\":12},{\"n\":\"f373\",\"i\":373,\"k\":3},{\"n\":\"f997\",\"i\":997,\"k\":11,\"s\":4,\"m\":124},{\"n\":\"f996\",\"i\":996,\"k\":11,\"s\":1,\"m\":126},{\"n\":\"f30\",\"i\":30,\"k\":4,\"s\":5,\"y\":13}]},{\"name\":\"S21M1\",\"u\":2,\"f\":[{\"n\":\"f253617011\",\"i\":253617011,\"k\":17},{\"n\":\"f439665010\",\"i\":439665010,\"k\":15,\"s\":1},{\"n\":\"f18999\",\"i\":18999,\"k\":11,\"s\":4,\"m\":127},{\"n\":\"f10\",\"i\":10,\"k\":1,\"s\":5,\"y\":15},{\"n\":\"f262144\",\"i\":262144,\"k\":7},{\"n\":\"f13\",\"i\":13,\"k\":18},{\"n\":\"f3\",\"i\":3,\"k\":11,\"s\":4,\"m\":131,\"v\":true},{\"n\":\"f7\",\"i\":7,\"k\":11,\"s\":1,\"m\":133,\"v\":true}]},{\"name\":\"S22M1\",\"f\":[{\"n\":\"f11\",\"i\":11,\"k\":11,\"s\":4,\"m\":134,\"v\":true}]},{\"name\":\"S23M1\",\"f\":[{\"n\":\"f14\",\"i\":14,\"k\":11,\"s\":1,\"m\":135},{\"n\":\"f15\",\"i\":15,\"k\":11,\"s\":4,\"m\":136,\"v\":true}]},{\"name\":\"S24M1\",\"u\":4,\"f\":[{\"n\":\"f113\",\"i\":113,\"k\":9,\"s\":5,\"y\":16},{\"n\":\"f197\",\"i\":197,\"k\":11,\"s\":1,\"m\":138},{\"n\":\"f5\",\"i\":5,\"k\":11,\"s\":1,\"m\":140}]},{\"name\":\"S25M1\",\"o\":1,\"f\":[{\"n\":\"f33554431\",\"i\":33554431,\"k\":18,\"s\":6},{\"n\":\"f999\",\"i\":999,\"k\":11,\"s\":1,\"m\":141,\"v\":true},{\"n\":\"f1\",\"i\":1,\"k\":11,\"s\":6,\"m\":142},{\"n\":\"f407\",\"i\":407,\"k\":6,\"s\":4}]},{\"name\":\"S26M1\",\"f\":[{\"n\":\"f5\",\"i\":5,\"k\":9,\"s\":5,\"y\":5}]},{\"name\":\"S27M1\",\"f\":[{\"n\":\"f8\",\"i\":8,\"k\":12,\"s\":4},{\"n\":\"f436052555\",\"i\":436052555,\"k\":16,\"s\":4,\"p\":true},{\"n\":\"f25\",\"i\":25,\"k\":3},{\"n\":\"f11\",\"i\":11,\"k\":8,\"s\":1},{\"n\":\"f316\",\"i\":316,\"k\":18}]},{\"name\":\"S28M1\",\"f\":[{\"n\":\"f7\",\"i\":7,\"k\":12,\"s\":4},{\"n\":\"f2\",\"i\":2,\"k\":11,\"s\":1,\"m\":144},{\"n\":\"f10\",\"i\":10,\"k\":8},{\"n\":\"f14\",\"i\":14,\"k\":8,\"s\":5,\"y\":9},{\"n\":\"f996\",\"i\":996,\"k\":4},{\"n\":\"f830\",\"i\":830,\"k\":6,\"s\":1},{\"n\":\"f17\",\"i\":17,\"k\":12,\"s\":5,\"y\":18},{\"n\":\"f21\",\"i\":21,\"k\":14,\"s\":5,\"y\":4},{\"n\":\"f921\",\"i\":921,\"k\":2,\"s\":5,\"y\":6}]},{\"name\":\"S29M1\",\"u\":2,\"f\":[{\"n\":\"f14\",\"i\":14,\"k\":16,\"s\":4,\"p\":true}]},{\"name\":\"S30M1\",\"o\":1,\"f\":[{\"n\":\"f13\",\"i\":13,\"k\":6},{\"n\":\"f28\",\"i\":28,\"k\":5},{\"n\":\"f148\",\"i\":148,\"k\":7,\"s\":6},{\"n\":\"f495\",\"i\":495,\"k\":15,\"s\":5,\"y\":18},{\"n\":\"f18999\",\"i\":18999,\"k\":11,\"s\":6,\"m\":147},{\"n\":\"f1001\",\"i\":1001,\"k\":6,\"s\":6},{\"n\":\"f23\",\"i\":23,\"k\":2,\"s\":1},{\"n\":\"f14\",\"i\":14,\"k\":15,\"s\":1},{\"n\":\"f15\",\"i\":15,\"k\":13},{\"n\":\"f431597913\",\"i\":431597913,\"k\":11,\"s\":6,\"m\":150}]},{\"name\":\"S31M1\",\"o\":1,\"u\":4,\"f\":[{\"n\":\"f8\",\"i\":8,\"k\":18},{\"n\":\"f15\",\"i\":15,\"k\":6,\"s\":6},{\"n\":\"f9\",\"i\":9,\"k\":5},{\"n\":\"f12\",\"i\":12,\"k\":2,\"s\":5,\"y\":8},{\"n\":\"f208\",\"i\":208,\"k\":11,\"s\":5,\"y\":17,\"m\":151},{\"n\":\"f40\",\"i\":40,\"k\":11,\"s\":1,\"m\":154},{\"n\":\"f4\",\"i\":4,\"k\":11,\"s\":1,\"m\":155,\"v\":true},{\"n\":\"f18999\",\"i\":18999,\"k\":7}]},{\"name\":\"S32M1\",\"u\":3,\"f\":[{\"n\":\"f15\",\"i\":15,\"k\":11,\"s\":1,\"m\":157},{\"n\":\"f6\",\"i\":6,\"k\":15,\"s\":1}]},{\"name\":\"S33M1\",\"o\":1,\"u\":4,\"f\":[{\"n\":\"f417399146\",\"i\":417399146,\"k\":14,\"s\":6},{\"n\":\"f14\",\"i\":14,\"k\":15,\"s\":5,\"y\":3},{\"n\":\"f24\",\"i\":24,\"k\":2,\"s\":5,\"y\":7},{\"n\":\"f2047\",\"i\":2047,\"k\":11,\"s\":1,\"m\":159},{\"n\":\"f262144\",\"i\":262144,\"k\":17,\"s\":6},{\"n\":\"f36\",\"i\":36,\"k\":1,\"s\":6},{\"n\":\"f243\",\"i\":243,\"k\":11,\"s\":6,\"m\":163},{\"n\":\"f536870911\",\"i\":536870911,\"k\":11,\"s\":3,\"m\":167}]},{\"name\":\"S34M1\",\"u\":4,\"f\":[{\"n\":\"f18999\",\"i\":18999,\"k\":6},{\"n\":\"f4\",\"i\":4,\"k\":17},{\"n\":\"f15\",\"i\":15,\"k\":9,\"s\":4}]},{\"name\":\"S35M1\",\"u\":4,\"f\":[{\"n\":\"f8\",\"i\":8,\"k\":7,\"s\":4,\"p\":true},{\"n\":\"f262144\",\"i\":262144,\"k\":16},{\"n\":\"f6\",\"i\":6,\"k\":6,\"s\":4,\"p\":true},{\"n\":\"f11\",\"i\":11,\"k\":12},{\"n\":\"f9\",\"i\":9,\"k\":2},{\"n\":\"f15\",\"i\":15,\"k\":3,\"s\":5,\"y\":13},{\"n\":\"f10\",\"i\":10,\"k\":4,\"s\":5,\"y\":18}]},{\"name\":\"S36M1\",\"u\":3,\"f\":[{\"n\":\"f14\",\"i\":14,\"k\":11,\"s\":1,\"m\":172},{\"n\":\"f2\",\"i\":2,\"k\":11,\"s\":1,\"m\":174,\"v\":true},{\"n\":\"f996\",\"i\":996,\"k\":16,\"s\":4,\"p\":true},{\"n\":\"f13\",\"i\":13,\"k\":11,\"s\":1,\"m\":174},{\"n\":\"f30\",\"i\":30,\"k\":15,\"s\":5,\"y\":17},{\"n\":\"f8\",\"i\":8,\"k\":6,\"s\":4},{\"n\":\"f340\",\"i\":340,\"k\":14},{\"n\":\"f26\",\"i\":26,\"k\":11,\"s\":1,\"m\":173},{\"n\":\"f228728171\",\"i\":228728171,\"k\":15,\"s\":1},{\"n\":\"f12\",\"i\":12,\"k\":1,\"s\":1}]},{\"name\":\"S37M1\",\"o\":1,\"u\":2,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":15},{\"n\":\"f7\",\"i\":7,\"k\":11,\"s\":1,\"m\":175},{\"n\":\"f229\",\"i\":229,\"k\":11,\"s\":6,\"m\":177},{\"n\":\"f14\",\"i\":14,\"k\":11,\"s\":6,\"m\":179}]},{\"name\":\"S38M1\",\"u\":2,\"f\":[{\"n\":\"f613\",\"i\":613,\"k\":2,\"s\":4,\"p\":true},{\"n\":\"f31\",\"i\":31,\"k\":17},{\"n\":\"f536870910\",\"i\":536870910,\"k\":11,\"s\":4,\"m\":180},{\"n\":\"f5\",\"i\":5,\"k\":11,\"s\":5,\"y\":4,\"m\":182,\"v\":true},{\"n\":\"f7\",\"i\":7,\"k\":13},{\"n\":\"f14\",\"i\":14,\"k\":11,\"s\":5,\"y\":15,\"m\":180},{\"n\":\"f15\",\"i\":15,\"k\":11,\"s\":4,\"m\":182,\"v\":true},{\"n\":\"f1006\",\"i\":1006,\"k\":14,\"s\":4,\"p\":true}]},{\"name\":\"S39M1\",\"o\":1,\"f\":[{\"n\":\"f424\",\"i\":424,\"k\":13,\"s\":1},{\"n\":\"f5\",\"i\":5,\"k\":11,\"s\":6,\"m\":183},{\"n\":\"f12\",\"i\":12,\"k\":4,\"s\":3},{\"n\":\"f9\",\"i\":9,\"k\":6,\"s\":1},{\"n\":\"f6\",\"i\":6,\"k\":6,\"s\":6},{\"n\":\"f14\",\"i\":14,\"k\":8,\"s\":1},{\"n\":\"f1\",\"i\":1,\"k\":16},{\"n\":\"f35\",\"i\":35,\"k\":4},{\"n\":\"f7\",\"i\":7,\"k\":15},{\"n\":\"f140124158\",\"i\":140124158,\"k\":7,\"s\":4}]},{\"name\":\"S40M1\",\"o\":1,\"u\":3,\"f\":[{\"n\":\"f10\",\"i\":10,\"k\":15,\"s\":5,\"y\":6},{\"n\":\"f12\",\"i\":12,\"k\":4,\"s\":1},{\"n\":\"f13\",\"i\":13,\"k\":13,\"s\":6},{\"n\":\"f2\",\"i\":2,\"k\":11,\"s\":1,\"m\":184,\"v\":true},{\"n\":\"f210\",\"i\":210,\"k\":11,\"s\":1,\"m\":187},{\"n\":\"f536870910\",\"i\":536870910,\"k\":1}]},{\"name\":\"S41M1\",\"u\":2,\"f\":[{\"n\":\"f9\",\"i\":9,\"k\":11,\"s\":1,\"m\":188},{\"n\":\"f995\",\"i\":995,\"k\":1,\"s\":3},{\"n\":\"f4\",\"i\":4,\"k\":5},{\"n\":\"f18\",\"i\":18,\"k\":11,\"s\":5,\"y\":7,\"m\":190,\"v\":true},{\"n\":\"f5\",\"i\":5,\"k\":17,\"s\":1}]},{\"name\":\"S42M1\",\"u\":3,\"f\":[{\"n\":\"f16\",\"i\":16,\"k\":3,\"s\":4,\"p\":true},{\"n\":\"f35949165\",\"i\":35949165,\"k\":17},{\"n\":\"f997\",\"i\":997,\"k\":17},{\"n\":\"f1006\",\"i\":1006,\"k\":13,\"s\":1},{\"n\":\"f108\",\"i\":108,\"k\":18},{\"n\":\"f1002\",\"i\":1002,\"k\":17,\"s\":1},{\"n\":\"f1000\",\"i\":1000,\"k\":11,\"s\":5,\"y\":16,\"m\":191}]},{\"name\":\"S43M1\",\"u\":1,\"f\":[{\"n\":\"f2047\",\"i\":2047,\"k\":11,\"s\":5,\"y\":13,\"m\":194,\"v\":true}]},{\"name\":\"S44M1\",\"u\":4,\"f\":[{\"n\":\"f3\",\"i\":3,\"k\":11,\"s\":4,\"m\":196},{\"n\":\"f4\",\"i\":4,\"k\":11,\"s\":4,\"m\":198},{\"n\":\"f33554431\",\"i\":33554431,\"k\":3,\"s\":4},{\"n\":\"f321\",\"i\":321,\"k\":8,\"s\":1},{\"n\":\"f8\",\"i\":8,\"k\":7},{\"n\":\"f5\",\"i\":5,\"k\":18,\"s\":4}]},{\"name\":\"S45M1\",\"o\":1,\"f\":[{\"n\":\"f12\",\"i\":12,\"k\":3,\"s\":5,\"y\":17},{\"n\":\"f14\",\"i\":14,\"k\":11,\"s\":6,\"m\":199},{\"n\":\"f13\",\"i\":13,\"k\":11,\"s\":1,\"m\":200},{\"n\":\"f6\",\"i\":6,\"k\":3,\"s\":6},{\"n\":\"f11\",\"i\":11,\"k\":11,\"s\":1,\"m\":202}]},{\"name\":\"S46M1\",\"u\":2,\"f\":[{\"n\":\"f3\",\"i\":3,\"k\":13,\"s\":5,\"y\":7},{\"n\":\"f4\",\"i\":4,\"k\":11,\"s\":1,\"m\":204,\"v\":true},{\"n\":\"f2047\",\"i\":2047,\"k\":5},{\"n\":\"f15\",\"i\":15,\"k\":1,\"s\":4,\"p\":true},{\"n\":\"f262143\",\"i\":262143,\"k\":8,\"s\":5,\"y\":15},{\"n\":\"f77570723\",\"i\":77570723,\"k\":15,\"s\":1},{\"n\":\"f5\",\"i\":5,\"k\":5,\"s\":1},{\"n\":\"f40\",\"i\":40,\"k\":2,\"s\":3},{\"n\":\"f16\",\"i\":16,\"k\":9,\"s\":5,\"y\":8},{\"n\":\"f6\",\"i\":6,\"k\":16,\"s\":5,\"y\":13}]},{\"name\":\"S47M1\",\"f\":[{\"n\":\"f36\",\"i\":36,\"k\":3,\"s\":4,\"p\":true}]},{\"name\":\"Rec\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":11,\"s\":1,\"m\":49},{\"n\":\"f2\",\"i\":2,\"k\":11,\"s\":4,\"m\":49},{\"n\":\"f3\",\"i\":3,\"k\":11,\"s\":5,\"y\":9,\"m\":49},{\"n\":\"f4\",\"i\":4,\"k\":11,\"s\":5,\"y\":5,\"m\":49},{\"n\":\"f5\",\"i\":5,\"k\":11,\"s\":5,\"y\":4,\"m\":49},{\"n\":\"f6\",\"i\":6,\"k\":11,\"s\":5,\"y\":8,\"m\":49},{\"n\":\"f7\",\"i\":7,\"k\":11,\"s\":6,\"m\":49},{\"n\":\"f8\",\"i\":8,\"k\":5,\"s\":6},{\"n\":\"f9\",\"i\":9,\"k\":5},{\"n\":\"f10\",\"i\":10,\"k\":9,\"s\":1},{\"n\":\"f11\",\"i\":11,\"k\":12,\"s\":4}]},{\"name\":\"MutA\",\"u\":2,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":11,\"s\":1,\"m\":207},{\"n\":\"f2\",\"i\":2,\"k\":18,\"s\":4,\"p\":true},{\"n\":\"f3\",\"i\":3,\"k\":11,\"s\":4,\"m\":50}]},{\"name\":\"AllImplicit\",\"u\":3,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":5},{\"n\":\"f2\",\"i\":2,\"k\":3},{\"n\":\"f3\",\"i\":3,\"k\":13},{\"n\":\"f4\",\"i\":4,\"k\":4},{\"n\":\"f5\",\"i\":5,\"k\":17},{\"n\":\"f6\",\"i\":6,\"k\":18},{\"n\":\"f7\",\"i\":7,\"k\":7},{\"n\":\"f8\",\"i\":8,\"k\":6},{\"n\":\"f9\",\"i\":9,\"k\":15},{\"n\":\"f10\",\"i\":10,\"k\":16},{\"n\":\"f11\",\"i\":11,\"k\":2},{\"n\":\"f12\",\"i\":12,\"k\":1},{\"n\":\"f13\",\"i\":13,\"k\":8},{\"n\":\"f14\",\"i\":14,\"k\":14},{\"n\":\"f15\",\"i\":15,\"k\":9},{\"n\":\"f16\",\"i\":16,\"k\":12}]},{\"name\":\"AllExplicit\",\"u\":3,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":5,\"s\":1},{\"n\":\"f2\",\"i\":2,\"k\":3,\"s\":1},{\"n\":\"f3\",\"i\":3,\"k\":13,\"s\":1},{\"n\":\"f4\",\"i\":4,\"k\":4,\"s\":1},{\"n\":\"f5\",\"i\":5,\"k\":17,\"s\":1},{\"n\":\"f6\",\"i\":6,\"k\":18,\"s\":1},{\"n\":\"f7\",\"i\":7,\"k\":7,\"s\":1},{\"n\":\"f8\",\"i\":8,\"k\":6,\"s\":1},{\"n\":\"f9\",\"i\":9,\"k\":15,\"s\":1},{\"n\":\"f10\",\"i\":10,\"k\":16,\"s\":1},{\"n\":\"f11\",\"i\":11,\"k\":2,\"s\":1},{\"n\":\"f12\",\"i\":12,\"k\":1,\"s\":1},{\"n\":\"f13\",\"i\":13,\"k\":8,\"s\":1},{\"n\":\"f14\",\"i\":14,\"k\":14,\"s\":1},{\"n\":\"f15\",\"i\":15,\"k\":9,\"s\":1},{\"n\":\"f16\",\"i\":16,\"k\":12,\"s\":1}]},{\"name\":\"AllRepeated\",\"u\":3,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":5,\"s\":4,\"p\":true},{\"n\":\"f2\",\"i\":2,\"k\":5,\"s\":4},{\"n\":\"f3\",\"i\":3,\"k\":3,\"s\":4,\"p\":true},{\"n\":\"f4\",\"i\":4,\"k\":3,\"s\":4},{\"n\":\"f5\",\"i\":5,\"k\":13,\"s\":4,\"p\":true},{\"n\":\"f6\",\"i\":6,\"k\":13,\"s\":4},{\"n\":\"f7\",\"i\":7,\"k\":4,\"s\":4,\"p\":true},{\"n\":\"f8\",\"i\":8,\"k\":4,\"s\":4},{\"n\":\"f9\",\"i\":9,\"k\":17,\"s\":4,\"p\":true},{\"n\":\"f10\",\"i\":10,\"k\":17,\"s\":4},{\"n\":\"f11\",\"i\":11,\"k\":18,\"s\":4,\"p\":true},{\"n\":\"f12\",\"i\":12,\"k\":18,\"s\":4},{\"n\":\"f13\",\"i\":13,\"k\":7,\"s\":4,\"p\":true},{\"n\":\"f14\",\"i\":14,\"k\":7,\"s\":4},{\"n\":\"f15\",\"i\":15,\"k\":6,\"s\":4,\"p\":true},{\"n\":\"f16\",\"i\":16,\"k\":6,\"s\":4},{\"n\":\"f17\",\"i\":17,\"k\":15,\"s\":4,\"p\":true},{\"n\":\"f18\",\"i\":18,\"k\":15,\"s\":4},{\"n\":\"f19\",\"i\":19,\"k\":16,\"s\":4,\"p\":true},{\"n\":\"f20\",\"i\":20,\"k\":16,\"s\":4},{\"n\":\"f21\",\"i\":21,\"k\":2,\"s\":4,\"p\":true},{\"n\":\"f22\",\"i\":22,\"k\":2,\"s\":4},{\"n\":\"f23\",\"i\":23,\"k\":1,\"s\":4,\"p\":true},{\"n\":\"f24\",\"i\":24,\"k\":1,\"s\":4},{\"n\":\"f25\",\"i\":25,\"k\":8,\"s\":4,\"p\":true},{\"n\":\"f26\",\"i\":26,\"k\":8,\"s\":4},{\"n\":\"f27\",\"i\":27,\"k\":14,\"s\":4,\"p\":true},{\"n\":\"f28\",\"i\":28,\"k\":14,\"s\":4},{\"n\":\"f29\",\"i\":29,\"k\":9,\"s\":4},{\"n\":\"f30\",\"i\":30,\"k\":12,\"s\":4}]},{\"name\":\"AllOneof\",\"o\":16,\"u\":3,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":5,\"s\":6},{\"n\":\"f2\",\"i\":2,\"k\":9,\"s\":6},{\"n\":\"f3\",\"i\":3,\"k\":3,\"s\":6,\"o\":1},{\"n\":\"f4\",\"i\":4,\"k\":9,\"s\":6,\"o\":1},{\"n\":\"f5\",\"i\":5,\"k\":13,\"s\":6,\"o\":2},{\"n\":\"f6\",\"i\":6,\"k\":9,\"s\":6,\"o\":2},{\"n\":\"f7\",\"i\":7,\"k\":4,\"s\":6,\"o\":3},{\"n\":\"f8\",\"i\":8,\"k\":9,\"s\":6,\"o\":3},{\"n\":\"f9\",\"i\":9,\"k\":17,\"s\":6,\"o\":4},{\"n\":\"f10\",\"i\":10,\"k\":9,\"s\":6,\"o\":4},{\"n\":\"f11\",\"i\":11,\"k\":18,\"s\":6,\"o\":5},{\"n\":\"f12\",\"i\":12,\"k\":9,\"s\":6,\"o\":5},{\"n\":\"f13\",\"i\":13,\"k\":7,\"s\":6,\"o\":6},{\"n\":\"f14\",\"i\":14,\"k\":9,\"s\":6,\"o\":6},{\"n\":\"f15\",\"i\":15,\"k\":6,\"s\":6,\"o\":7},{\"n\":\"f16\",\"i\":16,\"k\":9,\"s\":6,\"o\":7},{\"n\":\"f17\",\"i\":17,\"k\":15,\"s\":6,\"o\":8},{\"n\":\"f18\",\"i\":18,\"k\":9,\"s\":6,\"o\":8},{\"n\":\"f19\",\"i\":19,\"k\":16,\"s\":6,\"o\":9},{\"n\":\"f20\",\"i\":20,\"k\":9,\"s\":6,\"o\":9},{\"n\":\"f21\",\"i\":21,\"k\":2,\"s\":6,\"o\":10},{\"n\":\"f22\",\"i\":22,\"k\":9,\"s\":6,\"o\":10},{\"n\":\"f23\",\"i\":23,\"k\":1,\"s\":6,\"o\":11},{\"n\":\"f24\",\"i\":24,\"k\":9,\"s\":6,\"o\":11},{\"n\":\"f25\",\"i\":25,\"k\":8,\"s\":6,\"o\":12},{\"n\":\"f26\",\"i\":26,\"k\":9,\"s\":6,\"o\":12},{\"n\":\"f27\",\"i\":27,\"k\":14,\"s\":6,\"o\":13},{\"n\":\"f28\",\"i\":28,\"k\":9,\"s\":6,\"o\":13},{\"n\":\"f29\",\"i\":29,\"k\":9,\"s\":6,\"o\":14},{\"n\":\"f30\",\"i\":30,\"k\":9,\"s\":6,\"o\":14},{\"n\":\"f31\",\"i\":31,\"k\":12,\"s\":6,\"o\":15},{\"n\":\"f32\",\"i\":32,\"k\":9,\"s\":6,\"o\":15}]},{\"name\":\"Maps0\",\"u\":4,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":5,\"s\":5,\"y\":5},{\"n\":\"f2\",\"i\":2,\"k\":3,\"s\":5,\"y\":5},{\"n\":\"f3\",\"i\":3,\"k\":13,\"s\":5,\"y\":5},{\"n\":\"f4\",\"i\":4,\"k\":4,\"s\":5,\"y\":5},{\"n\":\"f5\",\"i\":5,\"k\":17,\"s\":5,\"y\":5},{\"n\":\"f6\",\"i\":6,\"k\":18,\"s\":5,\"y\":5},{\"n\":\"f7\",\"i\":7,\"k\":7,\"s\":5,\"y\":5},{\"n\":\"f8\",\"i\":8,\"k\":6,\"s\":5,\"y\":5},{\"n\":\"f9\",\"i\":9,\"k\":15,\"s\":5,\"y\":5},{\"n\":\"f10\",\"i\":10,\"k\":16,\"s\":5,\"y\":5},{\"n\":\"f11\",\"i\":11,\"k\":2,\"s\":5,\"y\":5},{\"n\":\"f12\",\"i\":12,\"k\":1,\"s\":5,\"y\":5},{\"n\":\"f13\",\"i\":13,\"k\":8,\"s\":5,\"y\":5},{\"n\":\"f14\",\"i\":14,\"k\":14,\"s\":5,\"y\":5},{\"n\":\"f15\",\"i\":15,\"k\":9,\"s\":5,\"y\":5},{\"n\":\"f16\",\"i\":16,\"k\":12,\"s\":5,\"y\":5},{\"n\":\"f17\",\"i\":17,\"k\":11,\"s\":5,\"y\":5,\"m\":208},{\"n\":\"f18\",\"i\":18,\"k\":11,\"s\":5,\"y\":5,\"m\":208,\"v\":true}]},{\"name\":\"Maps1\",\"u\":4,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":5,\"s\":5,\"y\":3},{\"n\":\"f2\",\"i\":2,\"k\":3,\"s\":5,\"y\":3},{\"n\":\"f3\",\"i\":3,\"k\":13,\"s\":5,\"y\":3},{\"n\":\"f4\",\"i\":4,\"k\":4,\"s\":5,\"y\":3},{\"n\":\"f5\",\"i\":5,\"k\":17,\"s\":5,\"y\":3},{\"n\":\"f6\",\"i\":6,\"k\":18,\"s\":5,\"y\":3},{\"n\":\"f7\",\"i\":7,\"k\":7,\"s\":5,\"y\":3},{\"n\":\"f8\",\"i\":8,\"k\":6,\"s\":5,\"y\":3},{\"n\":\"f9\",\"i\":9,\"k\":15,\"s\":5,\"y\":3},{\"n\":\"f10\",\"i\":10,\"k\":16,\"s\":5,\"y\":3},{\"n\":\"f11\",\"i\":11,\"k\":2,\"s\":5,\"y\":3},{\"n\":\"f12\",\"i\":12,\"k\":1,\"s\":5,\"y\":3},{\"n\":\"f13\",\"i\":13,\"k\":8,\"s\":5,\"y\":3},{\"n\":\"f14\",\"i\":14,\"k\":14,\"s\":5,\"y\":3},{\"n\":\"f15\",\"i\":15,\"k\":9,\"s\":5,\"y\":3},{\"n\":\"f16\",\"i\":16,\"k\":12,\"s\":5,\"y\":3},{\"n\":\"f17\",\"i\":17,\"k\":11,\"s\":5,\"y\":3,\"m\":208},{\"n\":\"f18\",\"i\":18,\"k\":11,\"s\":5,\"y\":3,\"m\":208,\"v\":true}]},{\"name\":\"Maps2\",\"u\":4,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":5,\"s\":5,\"y\":13},{\"n\":\"f2\",\"i\":2,\"k\":3,\"s\":5,\"y\":13},{\"n\":\"f3\",\"i\":3,\"k\":13,\"s\":5,\"y\":13},{\"n\":\"f4\",\"i\":4,\"k\":4,\"s\":5,\"y\":13},{\"n\":\"f5\",\"i\":5,\"k\":17,\"s\":5,\"y\":13},{\"n\":\"f6\",\"i\":6,\"k\":18,\"s\":5,\"y\":13},{\"n\":\"f7\",\"i\":7,\"k\":7,\"s\":5,\"y\":13},{\"n\":\"f8\",\"i\":8,\"k\":6,\"s\":5,\"y\":13},{\"n\":\"f9\",\"i\":9,\"k\":15,\"s\":5,\"y\":13},{\"n\":\"f10\",\"i\":10,\"k\":16,\"s\":5,\"y\":13},{\"n\":\"f11\",\"i\":11,\"k\":2,\"s\":5,\"y\":13},{\"n\":\"f12\",\"i\":12,\"k\":1,\"s\":5,\"y\":13},{\"n\":\"f13\",\"i\":13,\"k\":8,\"s\":5,\"y\":13},{\"n\":\"f14\",\"i\":14,\"k\":14,\"s\":5,\"y\":13},{\"n\":\"f15\",\"i\":15,\"k\":9,\"s\":5,\"y\":13},{\"n\":\"f16\",\"i\":16,\"k\":12,\"s\":5,\"y\":13},{\"n\":\"f17\",\"i\":17,\"k\":11,\"s\":5,\"y\":13,\"m\":208},{\"n\":\"f18\",\"i\":18,\"k\":11,\"s\":5,\"y\":13,\"m\":208,\"v\":true}]},{\"name\":\"Maps3\",\"u\":4,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":5,\"s\":5,\"y\":4},{\"n\":\"f2\",\"i\":2,\"k\":3,\"s\":5,\"y\":4},{\"n\":\"f3\",\"i\":3,\"k\":13,\"s\":5,\"y\":4},{\"n\":\"f4\",\"i\":4,\"k\":4,\"s\":5,\"y\":4},{\"n\":\"f5\",\"i\":5,\"k\":17,\"s\":5,\"y\":4},{\"n\":\"f6\",\"i\":6,\"k\":18,\"s\":5,\"y\":4},{\"n\":\"f7\",\"i\":7,\"k\":7,\"s\":5,\"y\":4},{\"n\":\"f8\",\"i\":8,\"k\":6,\"s\":5,\"y\":4},{\"n\":\"f9\",\"i\":9,\"k\":15,\"s\":5,\"y\":4},{\"n\":\"f10\",\"i\":10,\"k\":16,\"s\":5,\"y\":4},{\"n\":\"f11\",\"i\":11,\"k\":2,\"s\":5,\"y\":4},{\"n\":\"f12\",\"i\":12,\"k\":1,\"s\":5,\"y\":4},{\"n\":\"f13\",\"i\":13,\"k\":8,\"s\":5,\"y\":4},{\"n\":\"f14\",\"i\":14,\"k\":14,\"s\":5,\"y\":4},{\"n\":\"f15\",\"i\":15,\"k\":9,\"s\":5,\"y\":4},{\"n\":\"f16\",\"i\":16,\"k\":12,\"s\":5,\"y\":4},{\"n\":\"f17\",\"i\":17,\"k\":11,\"s\":5,\"y\":4,\"m\":208},{\"n\":\"f18\",\"i\":18,\"k\":11,\"s\":5,\"y\":4,\"m\":208,\"v\":true}]},{\"name\":\"Maps4\",\"u\":4,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":5,\"s\":5,\"y\":17},{\"n\":\"f2\",\"i\":2,\"k\":3,\"s\":5,\"y\":17},{\"n\":\"f3\",\"i\":3,\"k\":13,\"s\":5,\"y\":17},{\"n\":\"f4\",\"i\":4,\"k\":4,\"s\":5,\"y\":17},{\"n\":\"f5\",\"i\":5,\"k\":17,\"s\":5,\"y\":17},{\"n\":\"f6\",\"i\":6,\"k\":18,\"s\":5,\"y\":17},{\"n\":\"f7\",\"i\":7,\"k\":7,\"s\":5,\"y\":17},{\"n\":\"f8\",\"i\":8,\"k\":6,\"s\":5,\"y\":17},{\"n\":\"f9\",\"i\":9,\"k\":15,\"s\":5,\"y\":17},{\"n\":\"f10\",\"i\":10,\"k\":16,\"s\":5,\"y\":17},{\"n\":\"f11\",\"i\":11,\"k\":2,\"s\":5,\"y\":17},{\"n\":\"f12\",\"i\":12,\"k\":1,\"s\":5,\"y\":17},{\"n\":\"f13\",\"i\":13,\"k\":8,\"s\":5,\"y\":17},{\"n\":\"f14\",\"i\":14,\"k\":14,\"s\":5,\"y\":17},{\"n\":\"f15\",\"i\":15,\"k\":9,\"s\":5,\"y\":17},{\"n\":\"f16\",\"i\":16,\"k\":12,\"s\":5,\"y\":17},{\"n\":\"f17\",\"i\":17,\"k\":11,\"s\":5,\"y\":17,\"m\":208},{\"n\":\"f18\",\"i\":18,\"k\":11,\"s\":5,\"y\":17,\"m\":208,\"v\":true}]},{\"name\":\"Maps5\",\"u\":4,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":5,\"s\":5,\"y\":18},{\"n\":\"f2\",\"i\":2,\"k\":3,\"s\":5,\"y\":18},{\"n\":\"f3\",\"i\":3,\"k\":13,\"s\":5,\"y\":18},{\"n\":\"f4\",\"i\":4,\"k\":4,\"s\":5,\"y\":18},{\"n\":\"f5\",\"i\":5,\"k\":17,\"s\":5,\"y\":18},{\"n\":\"f6\",\"i\":6,\"k\":18,\"s\":5,\"y\":18},{\"n\":\"f7\",\"i\":7,\"k\":7,\"s\":5,\"y\":18},{\"n\":\"f8\",\"i\":8,\"k\":6,\"s\":5,\"y\":18},{\"n\":\"f9\",\"i\":9,\"k\":15,\"s\":5,\"y\":18},{\"n\":\"f10\",\"i\":10,\"k\":16,\"s\":5,\"y\":18},{\"n\":\"f11\",\"i\":11,\"k\":2,\"s\":5,\"y\":18},{\"n\":\"f12\",\"i\":12,\"k\":1,\"s\":5,\"y\":18},{\"n\":\"f13\",\"i\":13,\"k\":8,\"s\":5,\"y\":18},{\"n\":\"f14\",\"i\":14,\"k\":14,\"s\":5,\"y\":18},{\"n\":\"f15\",\"i\":15,\"k\":9,\"s\":5,\"y\":18},{\"n\":\"f16\",\"i\":16,\"k\":12,\"s\":5,\"y\":18},{\"n\":\"f17\",\"i\":17,\"k\":11,\"s\":5,\"y\":18,\"m\":208},{\"n\":\"f18\",\"i\":18,\"k\":11,\"s\":5,\"y\":18,\"m\":208,\"v\":true}]},{\"name\":\"Maps6\",\"u\":4,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":5,\"s\":5,\"y\":7},{\"n\":\"f2\",\"i\":2,\"k\":3,\"s\":5,\"y\":7},{\"n\":\"f3\",\"i\":3,\"k\":13,\"s\":5,\"y\":7},{\"n\":\"f4\",\"i\":4,\"k\":4,\"s\":5,\"y\":7},{\"n\":\"f5\",\"i\":5,\"k\":17,\"s\":5,\"y\":7},{\"n\":\"f6\",\"i\":6,\"k\":18,\"s\":5,\"y\":7},{\"n\":\"f7\",\"i\":7,\"k\":7,\"s\":5,\"y\":7},{\"n\":\"f8\",\"i\":8,\"k\":6,\"s\":5,\"y\":7},{\"n\":\"f9\",\"i\":9,\"k\":15,\"s\":5,\"y\":7},{\"n\":\"f10\",\"i\":10,\"k\":16,\"s\":5,\"y\":7},{\"n\":\"f11\",\"i\":11,\"k\":2,\"s\":5,\"y\":7},{\"n\":\"f12\",\"i\":12,\"k\":1,\"s\":5,\"y\":7},{\"n\":\"f13\",\"i\":13,\"k\":8,\"s\":5,\"y\":7},{\"n\":\"f14\",\"i\":14,\"k\":14,\"s\":5,\"y\":7},{\"n\":\"f15\",\"i\":15,\"k\":9,\"s\":5,\"y\":7},{\"n\":\"f16\",\"i\":16,\"k\":12,\"s\":5,\"y\":7},{\"n\":\"f17\",\"i\":17,\"k\":11,\"s\":5,\"y\":7,\"m\":208},{\"n\":\"f18\",\"i\":18,\"k\":11,\"s\":5,\"y\":7,\"m\":208,\"v\":true}]},{\"name\":\"Maps7\",\"u\":4,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":5,\"s\":5,\"y\":6},{\"n\":\"f2\",\"i\":2,\"k\":3,\"s\":5,\"y\":6},{\"n\":\"f3\",\"i\":3,\"k\":13,\"s\":5,\"y\":6},{\"n\":\"f4\",\"i\":4,\"k\":4,\"s\":5,\"y\":6},{\"n\":\"f5\",\"i\":5,\"k\":17,\"s\":5,\"y\":6},{\"n\":\"f6\",\"i\":6,\"k\":18,\"s\":5,\"y\":6},{\"n\":\"f7\",\"i\":7,\"k\":7,\"s\":5,\"y\":6},{\"n\":\"f8\",\"i\":8,\"k\":6,\"s\":5,\"y\":6},{\"n\":\"f9\",\"i\":9,\"k\":15,\"s\":5,\"y\":6},{\"n\":\"f10\",\"i\":10,\"k\":16,\"s\":5,\"y\":6},{\"n\":\"f11\",\"i\":11,\"k\":2,\"s\":5,\"y\":6},{\"n\":\"f12\",\"i\":12,\"k\":1,\"s\":5,\"y\":6},{\"n\":\"f13\",\"i\":13,\"k\":8,\"s\":5,\"y\":6},{\"n\":\"f14\",\"i\":14,\"k\":14,\"s\":5,\"y\":6},{\"n\":\"f15\",\"i\":15,\"k\":9,\"s\":5,\"y\":6},{\"n\":\"f16\",\"i\":16,\"k\":12,\"s\":5,\"y\":6},{\"n\":\"f17\",\"i\":17,\"k\":11,\"s\":5,\"y\":6,\"m\":208},{\"n\":\"f18\",\"i\":18,\"k\":11,\"s\":5,\"y\":6,\"m\":208,\"v\":true}]},{\"name\":\"Maps8\",\"u\":4,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":5,\"s\":5,\"y\":15},{\"n\":\"f2\",\"i\":2,\"k\":3,\"s\":5,\"y\":15},{\"n\":\"f3\",\"i\":3,\"k\":13,\"s\":5,\"y\":15},{\"n\":\"f4\",\"i\":4,\"k\":4,\"s\":5,\"y\":15},{\"n\":\"f5\",\"i\":5,\"k\":17,\"s\":5,\"y\":15},{\"n\":\"f6\",\"i\":6,\"k\":18,\"s\":5,\"y\":15},{\"n\":\"f7\",\"i\":7,\"k\":7,\"s\":5,\"y\":15},{\"n\":\"f8\",\"i\":8,\"k\":6,\"s\":5,\"y\":15},{\"n\":\"f9\",\"i\":9,\"k\":15,\"s\":5,\"y\":15},{\"n\":\"f10\",\"i\":10,\"k\":16,\"s\":5,\"y\":15},{\"n\":\"f11\",\"i\":11,\"k\":2,\"s\":5,\"y\":15},{\"n\":\"f12\",\"i\":12,\"k\":1,\"s\":5,\"y\":15},{\"n\":\"f13\",\"i\":13,\"k\":8,\"s\":5,\"y\":15},{\"n\":\"f14\",\"i\":14,\"k\":14,\"s\":5,\"y\":15},{\"n\":\"f15\",\"i\":15,\"k\":9,\"s\":5,\"y\":15},{\"n\":\"f16\",\"i\":16,\"k\":12,\"s\":5,\"y\":15},{\"n\":\"f17\",\"i\":17,\"k\":11,\"s\":5,\"y\":15,\"m\":208},{\"n\":\"f18\",\"i\":18,\"k\":11,\"s\":5,\"y\":15,\"m\":208,\"v\":true}]},{\"name\":\"Maps9\",\"u\":4,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":5,\"s\":5,\"y\":16},{\"n\":\"f2\",\"i\":2,\"k\":3,\"s\":5,\"y\":16},{\"n\":\"f3\",\"i\":3,\"k\":13,\"s\":5,\"y\":16},{\"n\":\"f4\",\"i\":4,\"k\":4,\"s\":5,\"y\":16},{\"n\":\"f5\",\"i\":5,\"k\":17,\"s\":5,\"y\":16},{\"n\":\"f6\",\"i\":6,\"k\":18,\"s\":5,\"y\":16},{\"n\":\"f7\",\"i\":7,\"k\":7,\"s\":5,\"y\":16},{\"n\":\"f8\",\"i\":8,\"k\":6,\"s\":5,\"y\":16},{\"n\":\"f9\",\"i\":9,\"k\":15,\"s\":5,\"y\":16},{\"n\":\"f10\",\"i\":10,\"k\":16,\"s\":5,\"y\":16},{\"n\":\"f11\",\"i\":11,\"k\":2,\"s\":5,\"y\":16},{\"n\":\"f12\",\"i\":12,\"k\":1,\"s\":5,\"y\":16},{\"n\":\"f13\",\"i\":13,\"k\":8,\"s\":5,\"y\":16},{\"n\":\"f14\",\"i\":14,\"k\":14,\"s\":5,\"y\":16},{\"n\":\"f15\",\"i\":15,\"k\":9,\"s\":5,\"y\":16},{\"n\":\"f16\",\"i\":16,\"k\":12,\"s\":5,\"y\":16},{\"n\":\"f17\",\"i\":17,\"k\":11,\"s\":5,\"y\":16,\"m\":208},{\"n\":\"f18\",\"i\":18,\"k\":11,\"s\":5,\"y\":16,\"m\":208,\"v\":true}]},{\"name\":\"Maps10\",\"u\":4,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":5,\"s\":5,\"y\":8},{\"n\":\"f2\",\"i\":2,\"k\":3,\"s\":5,\"y\":8},{\"n\":\"f3\",\"i\":3,\"k\":13,\"s\":5,\"y\":8},{\"n\":\"f4\",\"i\":4,\"k\":4,\"s\":5,\"y\":8},{\"n\":\"f5\",\"i\":5,\"k\":17,\"s\":5,\"y\":8},{\"n\":\"f6\",\"i\":6,\"k\":18,\"s\":5,\"y\":8},{\"n\":\"f7\",\"i\":7,\"k\":7,\"s\":5,\"y\":8},{\"n\":\"f8\",\"i\":8,\"k\":6,\"s\":5,\"y\":8},{\"n\":\"f9\",\"i\":9,\"k\":15,\"s\":5,\"y\":8},{\"n\":\"f10\",\"i\":10,\"k\":16,\"s\":5,\"y\":8},{\"n\":\"f11\",\"i\":11,\"k\":2,\"s\":5,\"y\":8},{\"n\":\"f12\",\"i\":12,\"k\":1,\"s\":5,\"y\":8},{\"n\":\"f13\",\"i\":13,\"k\":8,\"s\":5,\"y\":8},{\"n\":\"f14\",\"i\":14,\"k\":14,\"s\":5,\"y\":8},{\"n\":\"f15\",\"i\":15,\"k\":9,\"s\":5,\"y\":8},{\"n\":\"f16\",\"i\":16,\"k\":12,\"s\":5,\"y\":8},{\"n\":\"f17\",\"i\":17,\"k\":11,\"s\":5,\"y\":8,\"m\":208},{\"n\":\"f18\",\"i\":18,\"k\":11,\"s\":5,\"y\":8,\"m\":208,\"v\":true}]},{\"name\":\"Maps11\",\"u\":4,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":5,\"s\":5,\"y\":9},{\"n\":\"f2\",\"i\":2,\"k\":3,\"s\":5,\"y\":9},{\"n\":\"f3\",\"i\":3,\"k\":13,\"s\":5,\"y\":9},{\"n\":\"f4\",\"i\":4,\"k\":4,\"s\":5,\"y\":9},{\"n\":\"f5\",\"i\":5,\"k\":17,\"s\":5,\"y\":9},{\"n\":\"f6\",\"i\":6,\"k\":18,\"s\":5,\"y\":9},{\"n\":\"f7\",\"i\":7,\"k\":7,\"s\":5,\"y\":9},{\"n\":\"f8\",\"i\":8,\"k\":6,\"s\":5,\"y\":9},{\"n\":\"f9\",\"i\":9,\"k\":15,\"s\":5,\"y\":9},{\"n\":\"f10\",\"i\":10,\"k\":16,\"s\":5,\"y\":9},{\"n\":\"f11\",\"i\":11,\"k\":2,\"s\":5,\"y\":9},{\"n\":\"f12\",\"i\":12,\"k\":1,\"s\":5,\"y\":9},{\"n\":\"f13\",\"i\":13,\"k\":8,\"s\":5,\"y\":9},{\"n\":\"f14\",\"i\":14,\"k\":14,\"s\":5,\"y\":9},{\"n\":\"f15\",\"i\":15,\"k\":9,\"s\":5,\"y\":9},{\"n\":\"f16\",\"i\":16,\"k\":12,\"s\":5,\"y\":9},{\"n\":\"f17\",\"i\":17,\"k\":11,\"s\":5,\"y\":9,\"m\":208},{\"n\":\"f18\",\"i\":18,\"k\":11,\"s\":5,\"y\":9,\"m\":208,\"v\":true}]},{\"name\":\"BigOneof\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":5,\"s\":6},{\"n\":\"f15\",\"i\":15,\"k\":3,\"s\":6},{\"n\":\"f16\",\"i\":16,\"k\":13,\"s\":6},{\"n\":\"f999\",\"i\":999,\"k\":4,\"s\":6},{\"n\":\"f1000\",\"i\":1000,\"k\":17,\"s\":6},{\"n\":\"f1001\",\"i\":1001,\"k\":18,\"s\":6},{\"n\":\"f1002\",\"i\":1002,\"k\":7,\"s\":6},{\"n\":\"f2047\",\"i\":2047,\"k\":6,\"s\":6},{\"n\":\"f2048\",\"i\":2048,\"k\":15,\"s\":6},{\"n\":\"f262143\",\"i\":262143,\"k\":16,\"s\":6},{\"n\":\"f262144\",\"i\":262144,\"k\":2,\"s\":6},{\"n\":\"f33554431\",\"i\":33554431,\"k\":1,\"s\":6},{\"n\":\"f33554432\",\"i\":33554432,\"k\":8,\"s\":6},{\"n\":\"f536870911\",\"i\":536870911,\"k\":14,\"s\":6},{\"n\":\"f536870910\",\"i\":536870910,\"k\":9,\"s\":6},{\"n\":\"f17\",\"i\":17,\"k\":12,\"s\":6},{\"n\":\"f500\",\"i\":500,\"k\":11,\"s\":6,\"m\":208},{\"n\":\"f501\",\"i\":501,\"k\":11,\"s\":6,\"m\":49},{\"n\":\"f502\",\"i\":502,\"k\":8}]},{\"name\":\"RecVal\",\"u\":1,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":11,\"s\":4,\"m\":68,\"v\":true},{\"n\":\"f2\",\"i\":2,\"k\":11,\"s\":5,\"y\":9,\"m\":68,\"v\":true},{\"n\":\"f3\",\"i\":3,\"k\":11,\"s\":5,\"y\":3,\"m\":68,\"v\":true},{\"n\":\"f4\",\"i\":4,\"k\":11,\"s\":1,\"m\":208,\"v\":true},{\"n\":\"f5\",\"i\":5,\"k\":13,\"s\":1},{\"n\":\"f6\",\"i\":6,\"k\":12,\"s\":2},{\"n\":\"f7\",\"i\":7,\"k\":9}]},{\"name\":\"OneofVal\",\"o\":1,\"u\":2,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":11,\"s\":6,\"m\":208,\"v\":true},{\"n\":\"f2\",\"i\":2,\"k\":13,\"s\":6}]},{\"name\":\"S1M2\",\"o\":1,\"u\":2,\"f\":[{\"n\":\"f7\",\"i\":7,\"k\":17,\"s\":5,\"y\":4},{\"n\":\"f13\",\"i\":13,\"k\":9},{\"n\":\"f1005\",\"i\":1005,\"k\":12,\"s\":4},{\"n\":\"f37\",\"i\":37,\"k\":8,\"s\":4,\"p\":true},{\"n\":\"f1\",\"i\":1,\"k\":9,\"s\":5,\"y\":9},{\"n\":\"f15\",\"i\":15,\"k\":4,\"s\":6},{\"n\":\"f8\",\"i\":8,\"k\":11,\"s\":3,\"m\":71}]},{\"name\":\"S1M3\",\"o\":1,\"u\":2,\"f\":[{\"n\":\"f2\",\"i\":2,\"k\":9,\"s\":1},{\"n\":\"f9\",\"i\":9,\"k\":17,\"s\":1},{\"n\":\"f2048\",\"i\":2048,\"k\":16},{\"n\":\"f33554431\",\"i\":33554431,\"k\":9,\"s\":6},{\"n\":\"f13\",\"i\":13,\"k\":1}]},{\"name\":\"S1M4\",\"u\":1,\"f\":[{\"n\":\"f536870910\",\"i\":536870910,\"k\":11,\"s\":3,\"m\":73},{\"n\":\"f254648218\",\"i\":254648218,\"k\":5,\"s\":1},{\"n\":\"f150\",\"i\":150,\"k\":6,\"s\":3}]},{\"name\":\"S1M5\",\"u\":4,\"f\":[{\"n\":\"f115\",\"i\":115,\"k\":4},{\"n\":\"f611\",\"i\":611,\"k\":7},{\"n\":\"f262144\",\"i\":262144,\"k\":1},{\"n\":\"f663\",\"i\":663,\"k\":18,\"s\":4,\"p\":true},{\"n\":\"f549\",\"i\":549,\"k\":13,\"s\":1},{\"n\":\"f2\",\"i\":2,\"k\":3,\"s\":5,\"y\":17}]},{\"name\":\"S2M2\",\"o\":2,\"u\":1,\"f\":[{\"n\":\"f7\",\"i\":7,\"k\":11,\"s\":1,\"m\":75},{\"n\":\"f383573839\",\"i\":383573839,\"k\":7,\"s\":4},{\"n\":\"f12\",\"i\":12,\"k\":18},{\"n\":\"f51084766\",\"i\":51084766,\"k\":13,\"s\":5,\"y\":17},{\"n\":\"f1\",\"i\":1,\"k\":6,\"s\":5,\"y\":18},{\"n\":\"f13\",\"i\":13,\"k\":11,\"s\":6,\"m\":76},{\"n\":\"f262144\",\"i\":262144,\"k\":11,\"s\":5,\"y\":7,\"m\":77,\"v\":true},{\"n\":\"f2\",\"i\":2,\"k\":11,\"s\":6,\"m\":75,\"o\":1},{\"n\":\"f30\",\"i\":30,\"k\":17,\"s\":5,\"y\":3},{\"n\":\"f26\",\"i\":26,\"k\":4,\"s\":6}]},{\"name\":\"S2M3\",\"o\":1,\"u\":4,\"f\":[{\"n\":\"f10\",\"i\":10,\"k\":12,\"s\":2},{\"n\":\"f262143\",\"i\":262143,\"k\":18,\"s\":4},{\"n\":\"f12\",\"i\":12,\"k\":18,\"s\":1},{\"n\":\"f32\",\"i\":32,\"k\":2,\"s\":6}]},{\"name\":\"S2M4\",\"u\":2,\"f\":[{\"n\":\"f1006\",\"i\":1006,\"k\":13,\"s\":1},{\"n\":\"f13\",\"i\":13,\"k\":15,\"s\":4,\"p\":true},{\"n\":\"f11\",\"i\":11,\"k\":7,\"s\":4},{\"n\":\"f422\",\"i\":422,\"k\":13,\"s\":4}]},{\"name\":\"S2M5\",\"u\":4,\"f\":[{\"n\":\"f2\",\"i\":2,\"k\":16,\"s\":4,\"p\":true}]},{\"name\":\"S3M2\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f20000\",\"i\":20000,\"k\":11,\"s\":1,\"m\":79},{\"n\":\"f1\",\"i\":1,\"k\":18,\"s\":4},{\"n\":\"f228\",\"i\":228,\"k\":11,\"s\":4,\"m\":80,\"v\":true},{\"n\":\"f10\",\"i\":10,\"k\":15,\"s\":1},{\"n\":\"f536870910\",\"i\":536870910,\"k\":11,\"s\":6,\"m\":81},{\"n\":\"f2047\",\"i\":2047,\"k\":5,\"s\":1},{\"n\":\"f4\",\"i\":4,\"k\":6}]},{\"name\":\"S3M3\",\"u\":4,\"f\":[{\"n\":\"f138\",\"i\":138,\"k\":1},{\"n\":\"f997\",\"i\":997,\"k\":2},{\"n\":\"f33554432\",\"i\":33554432,\"k\":9},{\"n\":\"f4\",\"i\":4,\"k\":1},{\"n\":\"f10\",\"i\":10,\"k\":13,\"s\":5,\"y\":3},{\"n\":\"f123761269\",\"i\":123761269,\"k\":4,\"s\":5,\"y\":17},{\"n\":\"f555\",\"i\":555,\"k\":16,\"s\":1}]},{\"name\":\"S3M4\",\"o\":1,\"f\":[{\"n\":\"f13\",\"i\":13,\"k\":4,\"s\":6},{\"n\":\"f11\",\"i\":11,\"k\":9},{\"n\":\"f6\",\"i\":6,\"k\":18},{\"n\":\"f7\",\"i\":7,\"k\":15,\"s\":1},{\"n\":\"f306\",\"i\":306,\"k\":17,\"s\":3},{\"n\":\"f8\",\"i\":8,\"k\":16},{\"n\":\"f206029124\",\"i\":206029124,\"k\":6,\"s\":6},{\"n\":\"f18999\",\"i\":18999,\"k\":18,\"s\":6},{\"n\":\"f782\",\"i\":782,\"k\":9,\"s\":3},{\"n\":\"f573\",\"i\":573,\"k\":3,\"s\":4}]},{\"name\":\"S3M5\",\"u\":3,\"f\":null},{\"name\":\"S4M2\",\"u\":2,\"f\":[{\"n\":\"f20000\",\"i\":20000,\"k\":9},{\"n\":\"f1003\",\"i\":1003,\"k\":11,\"s\":1,\"m\":83},{\"n\":\"f319\",\"i\":319,\"k\":6,\"s\":5,\"y\":15},{\"n\":\"f5\",\"i\":5,\"k\":15,\"s\":5,\"y\":5},{\"n\":\"f8\",\"i\":8,\"k\":16,\"s\":3},{\"n\":\"f6\",\"i\":6,\"k\":13}]},{\"name\":\"S4M3\",\"o\":1,\"u\":3,\"f\":[{\"n\":\"f10\",\"i\":10,\"k\":3},{\"n\":\"f3\",\"i\":3,\"k\":1,\"s\":6}]},{\"name\":\"S4M4\",\"o\":1,\"u\":3,\"f\":[{\"n\":\"f7\",\"i\":7,\"k\":11,\"s\":1,\"m\":83},{\"n\":\"f327689584\",\"i\":327689584,\"k\":14,\"s\":6},{\"n\":\"f15\",\"i\":15,\"k\":14,\"s\":1},{\"n\":\"f803\",\"i\":803,\"k\":14,\"s\":5,\"y\":15},{\"n\":\"f30\",\"i\":30,\"k\":5,\"s\":5,\"y\":4},{\"n\":\"f802\",\"i\":802,\"k\":11,\"s\":6,\"m\":83}]},{\"name\":\"S5M2\",\"o\":1,\"u\":2,\"f\":[{\"n\":\"f9\",\"i\":9,\"k\":13,\"s\":6},{\"n\":\"f525\",\"i\":525,\"k\":4,\"s\":5,\"y\":8}]},{\"name\":\"S6M2\",\"u\":1,\"f\":[{\"n\":\"f12\",\"i\":12,\"k\":11,\"s\":4,\"m\":87,\"v\":true},{\"n\":\"f705\",\"i\":705,\"k\":11,\"s\":4,\"m\":88},{\"n\":\"f31\",\"i\":31,\"k\":9,\"s\":3}]},{\"name\":\"S6M3\",\"u\":2,\"f\":[{\"n\":\"f13\",\"i\":13,\"k\":6,\"s\":4}]},{\"name\":\"S6M4\",\"o\":1,\"f\":[{\"n\":\"f6\",\"i\":6,\"k\":13},{\"n\":\"f20\",\"i\":20,\"k\":2},{\"n\":\"f4\",\"i\":4,\"k\":2},{\"n\":\"f14\",\"i\":14,\"k\":14,\"s\":6},{\"n\":\"f8\",\"i\":8,\"k\":17}]},{\"name\":\"S6M5\",\"u\":3,\"f\":[{\"n\":\"f2\",\"i\":2,\"k\":16},{\"n\":\"f15\",\"i\":15,\"k\":1,\"s\":4,\"p\":true},{\"n\":\"f33554431\",\"i\":33554431,\"k\":11,\"s\":4,\"m\":90,\"v\":true},{\"n\":\"f20000\",\"i\":20000,\"k\":14,\"s\":1},{\"n\":\"f35\",\"i\":35,\"k\":12},{\"n\":\"f39\",\"i\":39,\"k\":3},{\"n\":\"f679\",\"i\":679,\"k\":11,\"s\":1,\"m\":91,\"v\":true},{\"n\":\"f225853968\",\"i\":225853968,\"k\":11,\"s\":4,\"m\":92}]},{\"name\":\"S6M6\",\"o\":1,\"u\":4,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":3,\"s\":6},{\"n\":\"f15\",\"i\":15,\"k\":5,\"s\":3},{\"n\":\"f996\",\"i\":996,\"k\":4}]},{\"name\":\"S6M7\",\"u\":4,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":8,\"s\":4},{\"n\":\"f23\",\"i\":23,\"k\":5,\"s\":5,\"y\":3},{\"n\":\"f8\",\"i\":8,\"k\":8},{\"n\":\"f2\",\"i\":2,\"k\":7,\"s\":4,\"p\":true},{\"n\":\"f9\",\"i\":9,\"k\":16,\"s\":5,\"y\":4},{\"n\":\"f3\",\"i\":3,\"k\":7,\"s\":4,\"p\":true},{\"n\":\"f7\",\"i\":7,\"k\":4,\"s\":1},{\"n\":\"f2047\",\"i\":2047,\"k\":18,\"s\":1},{\"n\":\"f695\",\"i\":695,\"k\":13,\"s\":3},{\"n\":\"f10\",\"i\":10,\"k\":8}]},{\"name\":\"S6M8\",\"u\":3,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":8},{\"n\":\"f19\",\"i\":19,\"k\":13,\"s\":4},{\"n\":\"f3\",\"i\":3,\"k\":9,\"s\":1}]},{\"name\":\"S7M2\",\"f\":[{\"n\":\"f793\",\"i\":793,\"k\":18,\"s\":5,\"y\":5},{\"n\":\"f1001\",\"i\":1001,\"k\":7,\"s\":1},{\"n\":\"f145035270\",\"i\":145035270,\"k\":11,\"s\":1,\"m\":94,\"v\":true},{\"n\":\"f224\",\"i\":224,\"k\":17,\"s\":1},{\"n\":\"f780\",\"i\":780,\"k\":11,\"s\":4,\"m\":95,\"v\":true}]},{\"name\":\"S7M3\",\"u\":2,\"f\":null},{\"name\":\"S7M4\",\"o\":1,\"f\":[{\"n\":\"f1005\",\"i\":1005,\"k\":5,\"s\":1},{\"n\":\"f38\",\"i\":38,\"k\":13,\"s\":4},{\"n\":\"f10\",\"i\":10,\"k\":8},{\"n\":\"f262143\",\"i\":262143,\"k\":8,\"s\":6},{\"n\":\"f237\",\"i\":237,\"k\":5},{\"n\":\"f13\",\"i\":13,\"k\":14}]},{\"name\":\"S8M2\",\"u\":1,\"f\":[{\"n\":\"f5\",\"i\":5,\"k\":11,\"s\":1,\"m\":97,\"v\":true},{\"n\":\"f33\",\"i\":33,\"k\":16},{\"n\":\"f1005\",\"i\":1005,\"k\":8,\"s\":4},{\"n\":\"f1002\",\"i\":1002,\"k\":11,\"s\":1,\"m\":98},{\"n\":\"f12\",\"i\":12,\"k\":2,\"s\":1},{\"n\":\"f11\",\"i\":11,\"k\":14},{\"n\":\"f2\",\"i\":2,\"k\":11,\"s\":4,\"m\":99}]},{\"name\":\"S8M3\",\"o\":1,\"u\":3,\"f\":[{\"n\":\"f10\",\"i\":10,\"k\":12,\"s\":6},{\"n\":\"f9\",\"i\":9,\"k\":15,\"s\":1}]},{\"name\":\"S8M4\",\"o\":1,\"u\":2,\"f\":[{\"n\":\"f963\",\"i\":963,\"k\":7,\"s\":6},{\"n\":\"f18999\",\"i\":18999,\"k\":14,\"s\":3},{\"n\":\"f33554432\",\"i\":33554432,\"k\":2,\"s\":4},{\"n\":\"f385\",\"i\":385,\"k\":16,\"s\":4,\"p\":true},{\"n\":\"f11\",\"i\":11,\"k\":16,\"s\":4,\"p\":true},{\"n\":\"f1\",\"i\":1,\"k\":12,\"s\":5,\"y\":16}]},{\"name\":\"S8M5\",\"u\":3,\"f\":[{\"n\":\"f1002\",\"i\":1002,\"k\":15},{\"n\":\"f20\",\"i\":20,\"k\":13,\"s\":5,\"y\":17},{\"n\":\"f1006\",\"i\":1006,\"k\":2},{\"n\":\"f3\",\"i\":3,\"k\":2,\"s\":1},{\"n\":\"f1007\",\"i\":1007,\"k\":3,\"s\":1},{\"n\":\"f6\",\"i\":6,\"k\":14,\"s\":1},{\"n\":\"f13\",\"i\":13,\"k\":14,\"s\":4},{\"n\":\"f33554432\",\"i\":33554432,\"k\":18,\"s\":1},{\"n\":\"f999\",\"i\":999,\"k\":16}]},{\"name\":\"S9M2\",\"o\":1,\"u\":4,\"f\":[{\"n\":\"f10\",\"i\":10,\"k\":6,\"s\":6},{\"n\":\"f7\",\"i\":7,\"k\":11,\"s\":1,\"m\":101},{\"n\":\"f37\",\"i\":37,\"k\":14,\"s\":1},{\"n\":\"f35\",\"i\":35,\"k\":3,\"s\":1}]},{\"name\":\"S9M3\",\"u\":3,\"f\":[{\"n\":\"f19\",\"i\":19,\"k\":14,\"s\":4,\"p\":true},{\"n\":\"f1\",\"i\":1,\"k\":18},{\"n\":\"f3\",\"i\":3,\"k\":1},{\"n\":\"f998\",\"i\":998,\"k\":15},{\"n\":\"f4\",\"i\":4,\"k\":18}]},{\"name\":\"S9M4\",\"o\":2,\"u\":4,\"f\":[{\"n\":\"f998\",\"i\":998,\"k\":1,\"s\":6},{\"n\":\"f14\",\"i\":14,\"k\":7,\"s\":6},{\"n\":\"f9\",\"i\":9,\"k\":6,\"s\":6},{\"n\":\"f4\",\"i\":4,\"k\":17,\"s\":6,\"o\":1},{\"n\":\"f656\",\"i\":656,\"k\":12,\"s\":2},{\"n\":\"f2047\",\"i\":2047,\"k\":17,\"s\":6},{\"n\":\"f10\",\"i\":10,\"k\":11,\"s\":4,\"m\":103}]},{\"name\":\"S9M5\",\"u\":4,\"f\":[{\"n\":\"f14\",\"i\":14,\"k\":17,\"s\":4},{\"n\":\"f18999\",\"i\":18999,\"k\":8,\"s\":4},{\"n\":\"f13\",\"i\":13,\"k\":7},{\"n\":\"f2047\",\"i\":2047,\"k\":1,\"s\":1},{\"n\":\"f451748860\",\"i\":451748860,\"k\":14,\"s\":1},{\"n\":\"f27\",\"i\":27,\"k\":7,\"s\":3},{\"n\":\"f78443885\",\"i\":78443885,\"k\":16,\"s\":1},{\"n\":\"f15\",\"i\":15,\"k\":13,\"s\":3},{\"n\":\"f10\",\"i\":10,\"k\":17}]},{\"name\":\"S10M2\",\"u\":1,\"f\":[{\"n\":\"f13\",\"i\":13,\"k\":13,\"s\":1},{\"n\":\"f338528586\",\"i\":338528586,\"k\":12,\"s\":5,\"y\":17},{\"n\":\"f995\",\"i\":995,\"k\":18,\"s\":4},{\"n\":\"f902\",\"i\":902,\"k\":11,\"s\":1,\"m\":105},{\"n\":\"f432305134\",\"i\":432305134,\"k\":18,\"s\":1}]},{\"name\":\"S10M3\",\"o\":1,\"u\":4,\"f\":[{\"n\":\"f999\",\"i\":999,\"k\":15,\"s\":6},{\"n\":\"f1003\",\"i\":1003,\"k\":2,\"s\":6},{\"n\":\"f5\",\"i\":5,\"k\":8,\"s\":6},{\"n\":\"f3\",\"i\":3,\"k\":7,\"s\":1},{\"n\":\"f14\",\"i\":14,\"k\":5,\"s\":6}]},{\"name\":\"S16M2\",\"u\":3,\"f\":[{\"n\":\"f15\",\"i\":15,\"k\":12,\"s\":1},{\"n\":\"f16\",\"i\":16,\"k\":14,\"s\":5,\"y\":13}]},{\"name\":\"S16M3\",\"u\":3,\"f\":[{\"n\":\"f8\",\"i\":8,\"k\":9,\"s\":5,\"y\":4}]},{\"name\":\"S16M4\",\"u\":1,\"f\":null},{\"name\":\"S17M2\",\"o\":1,\"u\":3,\"f\":[{\"n\":\"f536870911\",\"i\":536870911,\"k\":5,\"s\":5,\"y\":3},{\"n\":\"f3\",\"i\":3,\"k\":14,\"s\":6},{\"n\":\"f1\",\"i\":1,\"k\":15,\"s\":1},{\"n\":\"f2\",\"i\":2,\"k\":11,\"s\":1,\"m\":110,\"v\":true},{\"n\":\"f187\",\"i\":187,\"k\":11,\"s\":1,\"m\":111,\"v\":true},{\"n\":\"f30\",\"i\":30,\"k\":11,\"s\":1,\"m\":112},{\"n\":\"f4\",\"i\":4,\"k\":11,\"s\":1,\"m\":111}]},{\"name\":\"S17M3\",\"f\":[{\"n\":\"f9\",\"i\":9,\"k\":15},{\"n\":\"f10\",\"i\":10,\"k\":17},{\"n\":\"f996\",\"i\":996,\"k\":15,\"s\":1},{\"n\":\"f536870910\",\"i\":536870910,\"k\":7},{\"n\":\"f999\",\"i\":999,\"k\":6},{\"n\":\"f567\",\"i\":567,\"k\":6,\"s\":1},{\"n\":\"f28\",\"i\":28,\"k\":8,\"s\":1},{\"n\":\"f11\",\"i\":11,\"k\":17,\"s\":1}]},{\"name\":\"S17M4\",\"o\":1,\"f\":[{\"n\":\"f860\",\"i\":860,\"k\":9},{\"n\":\"f314\",\"i\":314,\"k\":1,\"s\":6},{\"n\":\"f903\",\"i\":903,\"k\":18},{\"n\":\"f262144\",\"i\":262144,\"k\":5,\"s\":1}]},{\"name\":\"S17M5\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f664\",\"i\":664,\"k\":5,\"s\":6}]},{\"name\":\"S17M6\",\"u\":3,\"f\":[{\"n\":\"f54\",\"i\":54,\"k\":18,\"s\":4},{\"n\":\"f4\",\"i\":4,\"k\":11,\"s\":5,\"y\":13,\"m\":114},{\"n\":\"f9\",\"i\":9,\"k\":6,\"s\":3},{\"n\":\"f11\",\"i\":11,\"k\":7,\"s\":1}]},{\"name\":\"S17M7\",\"o\":1,\"u\":3,\"f\":[{\"n\":\"f2\",\"i\":2,\"k\":14,\"s\":6},{\"n\":\"f6\",\"i\":6,\"k\":17,\"s\":1},{\"n\":\"f998\",\"i\":998,\"k\":7,\"s\":5,\"y\":15},{\"n\":\"f1000\",\"i\":1000,\"k\":5,\"s\":5,\"y\":16},{\"n\":\"f279\",\"i\":279,\"k\":13}]},{\"name\":\"S18M2\",\"o\":2,\"u\":3,\"f\":[{\"n\":\"f439771252\",\"i\":439771252,\"k\":6,\"s\":5,\"y\":13},{\"n\":\"f9\",\"i\":9,\"k\":1,\"s\":4},{\"n\":\"f1\",\"i\":1,\"k\":1,\"s\":6},{\"n\":\"f995\",\"i\":995,\"k\":12,\"s\":6,\"o\":1}]},{\"name\":\"S18M3\",\"o\":1,\"u\":2,\"f\":[{\"n\":\"f13\",\"i\":13,\"k\":1,\"s\":6},{\"n\":\"f2047\",\"i\":2047,\"k\":2,\"s\":3},{\"n\":\"f1004\",\"i\":1004,\"k\":5,\"s\":4,\"p\":true},{\"n\":\"f997\",\"i\":997,\"k\":17,\"s\":4,\"p\":true},{\"n\":\"f9\",\"i\":9,\"k\":5,\"s\":4},{\"n\":\"f3\",\"i\":3,\"k\":17},{\"n\":\"f1003\",\"i\":1003,\"k\":4,\"s\":1}]},{\"name\":\"S18M4\",\"u\":1,\"f\":[{\"n\":\"f40\",\"i\":40,\"k\":6,\"s\":1},{\"n\":\"f20000\",\"i\":20000,\"k\":9,\"s\":4},{\"n\":\"f13\",\"i\":13,\"k\":12},{\"n\":\"f14\",\"i\":14,\"k\":8,\"s\":1},{\"n\":\"f15\",\"i\":15,\"k\":14,\"s\":4},{\"n\":\"f12\",\"i\":12,\"k\":11,\"s\":1,\"m\":118}]},{\"name\":\"S18M5\",\"u\":2,\"f\":[{\"n\":\"f11\",\"i\":11,\"k\":8},{\"n\":\"f574\",\"i\":574,\"k\":1,\"s\":4},{\"n\":\"f13\",\"i\":13,\"k\":7,\"s\":1},{\"n\":\"f3\",\"i\":3,\"k\":16,\"s\":4},{\"n\":\"f9\",\"i\":9,\"k\":18},{\"n\":\"f38\",\"i\":38,\"k\":4},{\"n\":\"f119485057\",\"i\":119485057,\"k\":4,\"s\":1}]},{\"name\":\"S18M6\",\"o\":2,\"u\":1,\"f\":[{\"n\":\"f40\",\"i\":40,\"k\":6,\"s\":6},{\"n\":\"f13\",\"i\":13,\"k\":11,\"s\":6,\"m\":120,\"o\":1},{\"n\":\"f735\",\"i\":735,\"k\":11,\"s\":6,\"m\":115,\"o\":1}]},{\"name\":\"S18M7\",\"o\":1,\"u\":3,\"f\":[{\"n\":\"f5\",\"i\":5,\"k\":8,\"s\":1},{\"n\":\"f125\",\"i\":125,\"k\":1},{\"n\":\"f4\",\"i\":4,\"k\":8,\"s\":6},{\"n\":\"f2\",\"i\":2,\"k\":1,\"s\":5,\"y\":5},{\"n\":\"f10\",\"i\":10,\"k\":13,\"s\":4}]},{\"name\":\"S19M2\",\"o\":1,\"f\":[{\"n\":\"f997\",\"i\":997,\"k\":16},{\"n\":\"f1\",\"i\":1,\"k\":11,\"s\":5,\"y\":3,\"m\":122},{\"n\":\"f35\",\"i\":35,\"k\":6},{\"n\":\"f262143\",\"i\":262143,\"k\":7,\"s\":4},{\"n\":\"f117\",\"i\":117,\"k\":4},{\"n\":\"f11\",\"i\":11,\"k\":11,\"s\":6,\"m\":123},{\"n\":\"f4\",\"i\":4,\"k\":14,\"s\":5,\"y\":9}]},{\"name\":\"S19M3\",\"u\":1,\"f\":[{\"n\":\"f10\",\"i\":10,\"k\":1,\"s\":3},{\"n\":\"f249951882\",\"i\":249951882,\"k\":16,\"s\":1},{\"n\":\"f1004\",\"i\":1004,\"k\":6,\"s\":1}]},{\"name\":\"S19M4\",\"u\":2,\"f\":[{\"n\":\"f11\",\"i\":11,\"k\":6,\"s\":4,\"p\":true},{\"n\":\"f14\",\"i\":14,\"k\":9,\"s\":1}]},{\"name\":\"S20M2\",\"u\":3,\"f\":[{\"n\":\"f14\",\"i\":14,\"k\":3,\"s\":3},{\"n\":\"f206974444\",\"i\":206974444,\"k\":7},{\"n\":\"f27\",\"i\":27,\"k\":1,\"s\":1},{\"n\":\"f11\",\"i\":11,\"k\":4,\"s\":5,\"y\":13},{\"n\":\"f822\",\"i\":822,\"k\":11,\"s\":1,\"m\":125},{\"n\":\"f2\",\"i\":2,\"k\":6,\"s\":5,\"y\":3},{\"n\":\"f459\",\"i\":459,\"k\":11,\"s\":4,\"m\":126,\"v\":true},{\"n\":\"f4\",\"i\":4,\"k\":3,\"s\":4,\"p\":true},{\"n\":\"f6\",\"i\":6,\"k\":16},{\"n\":\"f20000\",\"i\":20000,\"k\":16,\"s\":3}]},{\"name\":\"S20M3\",\"u\":1,\"f\":[{\"n\":\"f38\",\"i\":38,\"k\":15,\"s\":4},{\"n\":\"f27\",\"i\":27,\"k\":16,\"s\":1},{\"n\":\"f262143\",\"i\":262143,\"k\":1},{\"n\":\"f20000\",\"i\":20000,\"k\":12},{\"n\":\"f12\",\"i\":12,\"k\":2,\"s\":4,\"p\":true}]},{\"name\":\"S20M4\",\"o\":1,\"u\":2,\"f\":[{\"n\":\"f536870911\",\"i\":536870911,\"k\":13,\"s\":1},{\"n\":\"f21\",\"i\":21,\"k\":4,\"s\":1},{\"n\":\"f1\",\"i\":1,\"k\":18},{\"n\":\"f180585969\",\"i\":180585969,\"k\":2,\"s\":1},{\"n\":\"f837\",\"i\":837,\"k\":17,\"s\":6},{\"n\":\"f2\",\"i\":2,\"k\":15},{\"n\":\"f9\",\"i\":9,\"k\":17},{\"n\":\"f7\",\"i\":7,\"k\":17,\"s\":6},{\"n\":\"f22\",\"i\":22,\"k\":4,\"s\":5,\"y\":18}]},{\"name\":\"S21M2\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f507\",\"i\":507,\"k\":3,\"s\":6},{\"n\":\"f11\",\"i\":11,\"k\":16,\"s\":3},{\"n\":\"f10\",\"i\":10,\"k\":16,\"s\":1},{\"n\":\"f13\",\"i\":13,\"k\":18},{\"n\":\"f20000\",\"i\":20000,\"k\":4,\"s\":6},{\"n\":\"f12\",\"i\":12,\"k\":11,\"s\":4,\"m\":128},{\"n\":\"f14\",\"i\":14,\"k\":11,\"s\":4,\"m\":129},{\"n\":\"f4\",\"i\":4,\"k\":2,\"s\":4},{\"n\":\"f865\",\"i\":865,\"k\":11,\"s\":6,\"m\":130},{\"n\":\"f15\",\"i\":15,\"k\":13,\"s\":1}]},{\"name\":\"S21M3\",\"u\":1,\"f\":[{\"n\":\"f913\",\"i\":913,\"k\":14,\"s\":5,\"y\":13},{\"n\":\"f19383444\",\"i\":19383444,\"k\":8,\"s\":5,\"y\":18},{\"n\":\"f1002\",\"i\":1002,\"k\":18,\"s\":3},{\"n\":\"f956\",\"i\":956,\"k\":13},{\"n\":\"f367\",\"i\":367,\"k\":12},{\"n\":\"f31\",\"i\":31,\"k\":13,\"s\":5,\"y\":4}]},{\"name\":\"S21M4\",\"u\":4,\"f\":[{\"n\":\"f12\",\"i\":12,\"k\":18},{\"n\":\"f29\",\"i\":29,\"k\":18,\"s\":1}]},{\"name\":\"S21M5\",\"o\":1,\"u\":3,\"f\":[{\"n\":\"f262144\",\"i\":262144,\"k\":12,\"s\":4},{\"n\":\"f15\",\"i\":15,\"k\":15,\"s\":4,\"p\":true},{\"n\":\"f8\",\"i\":8,\"k\":3,\"s\":6},{\"n\":\"f142\",\"i\":142,\"k\":5,\"s\":1},{\"n\":\"f149\",\"i\":149,\"k\":3,\"s\":4,\"p\":true},{\"n\":\"f700\",\"i\":700,\"k\":6,\"s\":6},{\"n\":\"f1005\",\"i\":1005,\"k\":14,\"s\":1},{\"n\":\"f29\",\"i\":29,\"k\":9,\"s\":1},{\"n\":\"f354\",\"i\":354,\"k\":7,\"s\":6}]},{\"name\":\"S21M6\",\"u\":4,\"f\":[{\"n\":\"f11\",\"i\":11,\"k\":11,\"s\":4,\"m\":132,\"v\":true}]},{\"name\":\"S21M7\",\"u\":3,\"f\":[{\"n\":\"f4\",\"i\":4,\"k\":12,\"s\":1},{\"n\":\"f5\",\"i\":5,\"k\":15},{\"n\":\"f6\",\"i\":6,\"k\":14,\"s\":5,\"y\":6},{\"n\":\"f7\",\"i\":7,\"k\":16},{\"n\":\"f2047\",\"i\":2047,\"k\":12,\"s\":4},{\"n\":\"f1004\",\"i\":1004,\"k\":9},{\"n\":\"f526336911\",\"i\":526336911,\"k\":2,\"s\":5,\"y\":7}]},{\"name\":\"S21M8\",\"u\":2,\"f\":[{\"n\":\"f231191318\",\"i\":231191318,\"k\":9,\"s\":4},{\"n\":\"f1004\",\"i\":1004,\"k\":16,\"s\":4,\"p\":true}]},{\"name\":\"S22M2\",\"f\":[{\"n\":\"f39\",\"i\":39,\"k\":2,\"s\":5,\"y\":4},{\"n\":\"f6\",\"i\":6,\"k\":13,\"s\":4,\"p\":true}]},{\"name\":\"S23M2\",\"u\":1,\"f\":[{\"n\":\"f77\",\"i\":77,\"k\":18,\"s\":5,\"y\":6}]},{\"name\":\"S23M3\",\"u\":2,\"f\":[{\"n\":\"f2\",\"i\":2,\"k\":15,\"s\":1},{\"n\":\"f26\",\"i\":26,\"k\":6,\"s\":4},{\"n\":\"f652\",\"i\":652,\"k\":11,\"s\":1,\"m\":137,\"v\":true},{\"n\":\"f33554432\",\"i\":33554432,\"k\":1,\"s\":1},{\"n\":\"f3\",\"i\":3,\"k\":3,\"s\":1},{\"n\":\"f8\",\"i\":8,\"k\":8,\"s\":5,\"y\":6},{\"n\":\"f6\",\"i\":6,\"k\":4,\"s\":1},{\"n\":\"f4\",\"i\":4,\"k\":16}]},{\"name\":\"S23M4\",\"f\":[{\"n\":\"f404\",\"i\":404,\"k\":18,\"s\":1},{\"n\":\"f77046152\",\"i\":77046152,\"k\":13,\"s\":4},{\"n\":\"f18\",\"i\":18,\"k\":16,\"s\":1},{\"n\":\"f997\",\"i\":997,\"k\":13},{\"n\":\"f663\",\"i\":663,\"k\":7,\"s\":1},{\"n\":\"f14\",\"i\":14,\"k\":12}]},{\"name\":\"S24M2\",\"u\":4,\"f\":[{\"n\":\"f999\",\"i\":999,\"k\":11,\"s\":1,\"m\":139,\"v\":true},{\"n\":\"f388\",\"i\":388,\"k\":8,\"s\":1},{\"n\":\"f678\",\"i\":678,\"k\":4}]},{\"name\":\"S24M3\",\"o\":1,\"u\":4,\"f\":[{\"n\":\"f683\",\"i\":683,\"k\":16,\"s\":1},{\"n\":\"f581\",\"i\":581,\"k\":14,\"s\":4},{\"n\":\"f1\",\"i\":1,\"k\":9,\"s\":5,\"y\":5},{\"n\":\"f1005\",\"i\":1005,\"k\":7,\"s\":1},{\"n\":\"f14\",\"i\":14,\"k\":13,\"s\":5,\"y\":6},{\"n\":\"f8\",\"i\":8,\"k\":7,\"s\":1},{\"n\":\"f5\",\"i\":5,\"k\":18,\"s\":4,\"p\":true},{\"n\":\"f482\",\"i\":482,\"k\":17,\"s\":6}]},{\"name\":\"S24M4\",\"o\":1,\"u\":3,\"f\":[{\"n\":\"f4\",\"i\":4,\"k\":7,\"s\":4,\"p\":true},{\"n\":\"f8\",\"i\":8,\"k\":6,\"s\":4,\"p\":true},{\"n\":\"f998\",\"i\":998,\"k\":9,\"s\":4},{\"n\":\"f1002\",\"i\":1002,\"k\":3,\"s\":4},{\"n\":\"f1003\",\"i\":1003,\"k\":12,\"s\":6}]},{\"name\":\"S25M2\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f4\",\"i\":4,\"k\":2,\"s\":5,\"y\":13},{\"n\":\"f1003\",\"i\":1003,\"k\":5,\"s\":6},{\"n\":\"f5\",\"i\":5,\"k\":1,\"s\":4},{\"n\":\"f6\",\"i\":6,\"k\":5,\"s\":6},{\"n\":\"f9\",\"i\":9,\"k\":8}]},{\"name\":\"S25M3\",\"o\":1,\"f\":[{\"n\":\"f24\",\"i\":24,\"k\":9,\"s\":4},{\"n\":\"f1\",\"i\":1,\"k\":2,\"s\":6},{\"n\":\"f5\",\"i\":5,\"k\":8},{\"n\":\"f522\",\"i\":522,\"k\":11,\"s\":1,\"m\":143}]},{\"name\":\"S25M4\",\"o\":1,\"u\":2,\"f\":[{\"n\":\"f1005\",\"i\":1005,\"k\":5,\"s\":4,\"p\":true},{\"n\":\"f1004\",\"i\":1004,\"k\":17,\"s\":4},{\"n\":\"f71\",\"i\":71,\"k\":9},{\"n\":\"f6\",\"i\":6,\"k\":16,\"s\":1},{\"n\":\"f13\",\"i\":13,\"k\":18,\"s\":4,\"p\":true},{\"n\":\"f8\",\"i\":8,\"k\":9},{\"n\":\"f15\",\"i\":15,\"k\":9,\"s\":6},{\"n\":\"f1006\",\"i\":1006,\"k\":7,\"s\":3},{\"n\":\"f14\",\"i\":14,\"k\":12,\"s\":6},{\"n\":\"f775\",\"i\":775,\"k\":13,\"s\":6}]},{\"name\":\"S28M2\",\"f\":[{\"n\":\"f20000\",\"i\":20000,\"k\":17,\"s\":4,\"p\":true},{\"n\":\"f233456616\",\"i\":233456616,\"k\":11,\"s\":5,\"y\":4,\"m\":145},{\"n\":\"f34\",\"i\":34,\"k\":11,\"s\":5,\"y\":8,\"m\":146,\"v\":true},{\"n\":\"f2048\",\"i\":2048,\"k\":11,\"s\":5,\"y\":5,\"m\":146},{\"n\":\"f19\",\"i\":19,\"k\":11,\"s\":1,\"m\":145},{\"n\":\"f3\",\"i\":3,\"k\":4,\"s\":1},{\"n\":\"f114\",\"i\":114,\"k\":2,\"s\":4},{\"n\":\"f1003\",\"i\":1003,\"k\":3,\"s\":1},{\"n\":\"f6\",\"i\":6,\"k\":17}]},{\"name\":\"S28M3\",\"o\":2,\"f\":[{\"n\":\"f27\",\"i\":27,\"k\":1},{\"n\":\"f6\",\"i\":6,\"k\":5,\"s\":6},{\"n\":\"f1\",\"i\":1,\"k\":6,\"s\":3},{\"n\":\"f37\",\"i\":37,\"k\":15},{\"n\":\"f262144\",\"i\":262144,\"k\":1,\"s\":6},{\"n\":\"f1002\",\"i\":1002,\"k\":14,\"s\":4,\"p\":true},{\"n\":\"f8\",\"i\":8,\"k\":7,\"s\":5,\"y\":17},{\"n\":\"f1006\",\"i\":1006,\"k\":5,\"s\":6,\"o\":1},{\"n\":\"f39\",\"i\":39,\"k\":13,\"s\":5,\"y\":5},{\"n\":\"f33554431\",\"i\":33554431,\"k\":2}]},{\"name\":\"S28M4\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f4\",\"i\":4,\"k\":7},{\"n\":\"f7\",\"i\":7,\"k\":9,\"s\":6},{\"n\":\"f1\",\"i\":1,\"k\":14,\"s\":4},{\"n\":\"f476\",\"i\":476,\"k\":16,\"s\":5,\"y\":5},{\"n\":\"f14\",\"i\":14,\"k\":3,\"s\":6}]},{\"name\":\"S30M2\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f33554432\",\"i\":33554432,\"k\":11,\"s\":1,\"m\":148,\"v\":true},{\"n\":\"f4\",\"i\":4,\"k\":8},{\"n\":\"f20000\",\"i\":20000,\"k\":14},{\"n\":\"f20\",\"i\":20,\"k\":11,\"s\":6,\"m\":149}]},{\"name\":\"S30M3\",\"u\":2,\"f\":[{\"n\":\"f11\",\"i\":11,\"k\":13,\"s\":5,\"y\":7},{\"n\":\"f1000\",\"i\":1000,\"k\":8,\"s\":5,\"y\":7},{\"n\":\"f467360910\",\"i\":467360910,\"k\":5,\"s\":1},{\"n\":\"f33\",\"i\":33,\"k\":16},{\"n\":\"f4\",\"i\":4,\"k\":9,\"s\":4},{\"n\":\"f1005\",\"i\":1005,\"k\":14,\"s\":1},{\"n\":\"f2\",\"i\":2,\"k\":8,\"s\":4},{\"n\":\"f453\",\"i\":453,\"k\":1,\"s\":1}]},{\"name\":\"S30M4\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f8\",\"i\":8,\"k\":17,\"s\":6},{\"n\":\"f15\",\"i\":15,\"k\":1},{\"n\":\"f13\",\"i\":13,\"k\":9,\"s\":5,\"y\":17},{\"n\":\"f996\",\"i\":996,\"k\":5,\"s\":6}]},{\"name\":\"S30M5\",\"u\":3,\"f\":[{\"n\":\"f8\",\"i\":8,\"k\":15,\"s\":4},{\"n\":\"f34\",\"i\":34,\"k\":3,\"s\":1}]},{\"name\":\"S31M2\",\"u\":3,\"f\":[{\"n\":\"f14\",\"i\":14,\"k\":8,\"s\":4},{\"n\":\"f15\",\"i\":15,\"k\":11,\"s\":1,\"m\":152},{\"n\":\"f592\",\"i\":592,\"k\":2,\"s\":3},{\"n\":\"f2\",\"i\":2,\"k\":11,\"s\":4,\"m\":153}]},{\"name\":\"S31M3\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f6\",\"i\":6,\"k\":8,\"s\":6},{\"n\":\"f15\",\"i\":15,\"k\":8,\"s\":4},{\"n\":\"f12\",\"i\":12,\"k\":16,\"s\":1},{\"n\":\"f696\",\"i\":696,\"k\":1,\"s\":5,\"y\":4},{\"n\":\"f2\",\"i\":2,\"k\":16,\"s\":4}]},{\"name\":\"S31M4\",\"o\":2,\"f\":[{\"n\":\"f33554432\",\"i\":33554432,\"k\":17,\"s\":4,\"p\":true},{\"n\":\"f136\",\"i\":136,\"k\":7,\"s\":5,\"y\":5},{\"n\":\"f579\",\"i\":579,\"k\":1,\"s\":6},{\"n\":\"f3\",\"i\":3,\"k\":17,\"s\":6,\"o\":1},{\"n\":\"f13\",\"i\":13,\"k\":12,\"s\":2},{\"n\":\"f12\",\"i\":12,\"k\":2},{\"n\":\"f2\",\"i\":2,\"k\":13},{\"n\":\"f18999\",\"i\":18999,\"k\":16,\"s\":1}]},{\"name\":\"S31M5\",\"u\":2,\"f\":[{\"n\":\"f15\",\"i\":15,\"k\":6}]},{\"name\":\"S31M6\",\"o\":1,\"f\":[{\"n\":\"f5\",\"i\":5,\"k\":8,\"s\":5,\"y\":13},{\"n\":\"f338\",\"i\":338,\"k\":1,\"s\":6},{\"n\":\"f16\",\"i\":16,\"k\":11,\"s\":4,\"m\":156},{\"n\":\"f15\",\"i\":15,\"k\":2,\"s\":6},{\"n\":\"f6\",\"i\":6,\"k\":12},{\"n\":\"f11\",\"i\":11,\"k\":3,\"s\":4,\"p\":true},{\"n\":\"f433\",\"i\":433,\"k\":14,\"s\":4,\"p\":true},{\"n\":\"f20\",\"i\":20,\"k\":9,\"s\":5,\"y\":18}]},{\"name\":\"S31M7\",\"u\":3,\"f\":[{\"n\":\"f191360019\",\"i\":191360019,\"k\":5},{\"n\":\"f13\",\"i\":13,\"k\":5},{\"n\":\"f39\",\"i\":39,\"k\":6},{\"n\":\"f4\",\"i\":4,\"k\":12,\"s\":5,\"y\":5},{\"n\":\"f566\",\"i\":566,\"k\":13,\"s\":1}]},{\"name\":\"S32M2\",\"u\":1,\"f\":[{\"n\":\"f536870911\",\"i\":536870911,\"k\":14},{\"n\":\"f2\",\"i\":2,\"k\":11,\"s\":1,\"m\":158,\"v\":true},{\"n\":\"f6\",\"i\":6,\"k\":2,\"s\":1}]},{\"name\":\"S32M3\",\"o\":2,\"f\":[{\"n\":\"f1001\",\"i\":1001,\"k\":6,\"s\":6},{\"n\":\"f7\",\"i\":7,\"k\":13,\"s\":6,\"o\":1},{\"n\":\"f14\",\"i\":14,\"k\":2,\"s\":6}]},{\"name\":\"S33M2\",\"o\":1,\"u\":3,\"f\":[{\"n\":\"f18999\",\"i\":18999,\"k\":11,\"s\":4,\"m\":160},{\"n\":\"f1\",\"i\":1,\"k\":2,\"s\":6},{\"n\":\"f22\",\"i\":22,\"k\":11,\"s\":5,\"y\":4,\"m\":161,\"v\":true},{\"n\":\"f885\",\"i\":885,\"k\":5,\"s\":4,\"p\":true},{\"n\":\"f15\",\"i\":15,\"k\":11,\"s\":4,\"m\":162},{\"n\":\"f16\",\"i\":16,\"k\":3,\"s\":5,\"y\":15}]},{\"name\":\"S33M3\",\"u\":4,\"f\":[{\"n\":\"f12\",\"i\":12,\"k\":16,\"s\":1},{\"n\":\"f11\",\"i\":11,\"k\":8},{\"n\":\"f9\",\"i\":9,\"k\":4,\"s\":4,\"p\":true},{\"n\":\"f33\",\"i\":33,\"k\":2,\"s\":1},{\"n\":\"f35\",\"i\":35,\"k\":1,\"s\":1},{\"n\":\"f16\",\"i\":16,\"k\":13,\"s\":3}]},{\"name\":\"S33M4\",\"u\":1,\"f\":[{\"n\":\"f2048\",\"i\":2048,\"k\":7,\"s\":5,\"y\":15},{\"n\":\"f128\",\"i\":128,\"k\":7,\"s\":1},{\"n\":\"f14\",\"i\":14,\"k\":18,\"s\":5,\"y\":8}]},{\"name\":\"S33M5\",\"o\":2,\"u\":2,\"f\":[{\"n\":\"f997\",\"i\":997,\"k\":18},{\"n\":\"f630\",\"i\":630,\"k\":15,\"s\":6},{\"n\":\"f4\",\"i\":4,\"k\":13,\"s\":4},{\"n\":\"f1005\",\"i\":1005,\"k\":15,\"s\":6,\"o\":1},{\"n\":\"f334\",\"i\":334,\"k\":17,\"s\":5,\"y\":15}]},{\"name\":\"S33M6\",\"u\":3,\"f\":[{\"n\":\"f12\",\"i\":12,\"k\":11,\"s\":1,\"m\":164},{\"n\":\"f33554432\",\"i\":33554432,\"k\":14,\"s\":1},{\"n\":\"f684\",\"i\":684,\"k\":17,\"s\":4,\"p\":true},{\"n\":\"f6\",\"i\":6,\"k\":2},{\"n\":\"f13\",\"i\":13,\"k\":11,\"s\":1,\"m\":165},{\"n\":\"f8\",\"i\":8,\"k\":11,\"s\":4,\"m\":166,\"v\":true},{\"n\":\"f38\",\"i\":38,\"k\":1,\"s\":4,\"p\":true}]},{\"name\":\"S33M7\",\"u\":2,\"f\":[{\"n\":\"f13\",\"i\":13,\"k\":18,\"s\":4},{\"n\":\"f999\",\"i\":999,\"k\":5},{\"n\":\"f12\",\"i\":12,\"k\":6,\"s\":4,\"p\":true},{\"n\":\"f1004\",\"i\":1004,\"k\":15},{\"n\":\"f1005\",\"i\":1005,\"k\":8},{\"n\":\"f3\",\"i\":3,\"k\":9,\"s\":5,\"y\":16},{\"n\":\"f9\",\"i\":9,\"k\":15,\"s\":1},{\"n\":\"f1\",\"i\":1,\"k\":9,\"s\":3},{\"n\":\"f8\",\"i\":8,\"k\":17,\"s\":1},{\"n\":\"f68\",\"i\":68,\"k\":4,\"s\":1}]},{\"name\":\"S33M8\",\"o\":1,\"u\":3,\"f\":[{\"n\":\"f14\",\"i\":14,\"k\":3,\"s\":6},{\"n\":\"f468941409\",\"i\":468941409,\"k\":15,\"s\":4,\"p\":true},{\"n\":\"f15\",\"i\":15,\"k\":13,\"s\":5,\"y\":18},{\"n\":\"f1004\",\"i\":1004,\"k\":9},{\"n\":\"f1003\",\"i\":1003,\"k\":16,\"s\":1}]},{\"name\":\"S33M9\",\"o\":1,\"u\":4,\"f\":[{\"n\":\"f3\",\"i\":3,\"k\":5,\"s\":6},{\"n\":\"f12\",\"i\":12,\"k\":8,\"s\":4,\"p\":true},{\"n\":\"f8\",\"i\":8,\"k\":12,\"s\":1},{\"n\":\"f10\",\"i\":10,\"k\":13},{\"n\":\"f6\",\"i\":6,\"k\":9,\"s\":5,\"y\":17}]},{\"name\":\"S33M10\",\"o\":1,\"u\":2,\"f\":[{\"n\":\"f11\",\"i\":11,\"k\":11,\"s\":4,\"m\":168},{\"n\":\"f10\",\"i\":10,\"k\":11,\"s\":5,\"y\":5,\"m\":169},{\"n\":\"f884\",\"i\":884,\"k\":11,\"s\":3,\"m\":170},{\"n\":\"f32\",\"i\":32,\"k\":11,\"s\":5,\"y\":5,\"m\":171},{\"n\":\"f13\",\"i\":13,\"k\":14,\"s\":6},{\"n\":\"f3\",\"i\":3,\"k\":17,\"s\":6},{\"n\":\"f28\",\"i\":28,\"k\":6,\"s\":4}]},{\"name\":\"S33M11\",\"u\":3,\"f\":[{\"n\":\"f2048\",\"i\":2048,\"k\":3},{\"n\":\"f18999\",\"i\":18999,\"k\":6,\"s\":1},{\"n\":\"f218\",\"i\":218,\"k\":16}]},{\"name\":\"S33M12\",\"u\":2,\"f\":[{\"n\":\"f11\",\"i\":11,\"k\":6},{\"n\":\"f15\",\"i\":15,\"k\":7,\"s\":1},{\"n\":\"f5\",\"i\":5,\"k\":4},{\"n\":\"f536870910\",\"i\":536870910,\"k\":5,\"s\":5,\"y\":8}]},{\"name\":\"S33M13\",\"o\":1,\"u\":4,\"f\":[{\"n\":\"f6\",\"i\":6,\"k\":6,\"s\":1},{\"n\":\"f921\",\"i\":921,\"k\":18,\"s\":4},{\"n\":\"f310\",\"i\":310,\"k\":3},{\"n\":\"f43\",\"i\":43,\"k\":17,\"s\":4},{\"n\":\"f3\",\"i\":3,\"k\":5,\"s\":5,\"y\":15},{\"n\":\"f995\",\"i\":995,\"k\":8,\"s\":5,\"y\":5},{\"n\":\"f2\",\"i\":2,\"k\":2},{\"n\":\"f891\",\"i\":891,\"k\":5,\"s\":6}]},{\"name\":\"S33M14\",\"o\":1,\"u\":4,\"f\":[{\"n\":\"f1005\",\"i\":1005,\"k\":6,\"s\":6},{\"n\":\"f4\",\"i\":4,\"k\":16,\"s\":1},{\"n\":\"f3\",\"i\":3,\"k\":2},{\"n\":\"f996\",\"i\":996,\"k\":5,\"s\":1},{\"n\":\"f1006\",\"i\":1006,\"k\":1,\"s\":4,\"p\":true}]},{\"name\":\"S36M2\",\"u\":2,\"f\":[{\"n\":\"f9\",\"i\":9,\"k\":11,\"s\":1,\"m\":173},{\"n\":\"f35\",\"i\":35,\"k\":14},{\"n\":\"f536870910\",\"i\":536870910,\"k\":5,\"s\":4,\"p\":true},{\"n\":\"f31\",\"i\":31,\"k\":8,\"s\":5,\"y\":8}]},{\"name\":\"S36M3\",\"o\":1,\"u\":3,\"f\":[{\"n\":\"f12\",\"i\":12,\"k\":8,\"s\":4,\"p\":true},{\"n\":\"f6\",\"i\":6,\"k\":7},{\"n\":\"f11\",\"i\":11,\"k\":3,\"s\":1},{\"n\":\"f13\",\"i\":13,\"k\":3,\"s\":6},{\"n\":\"f2\",\"i\":2,\"k\":14,\"s\":1},{\"n\":\"f997\",\"i\":997,\"k\":16,\"s\":5,\"y\":15},{\"n\":\"f14\",\"i\":14,\"k\":12,\"s\":5,\"y\":3},{\"n\":\"f37\",\"i\":37,\"k\":16,\"s\":6},{\"n\":\"f4\",\"i\":4,\"k\":13},{\"n\":\"f7\",\"i\":7,\"k\":15,\"s\":5,\"y\":18}]},{\"name\":\"S36M4\",\"u\":3,\"f\":[{\"n\":\"f15\",\"i\":15,\"k\":7},{\"n\":\"f408675754\",\"i\":408675754,\"k\":5},{\"n\":\"f8\",\"i\":8,\"k\":17,\"s\":4,\"p\":true},{\"n\":\"f894\",\"i\":894,\"k\":3},{\"n\":\"f11\",\"i\":11,\"k\":12},{\"n\":\"f7\",\"i\":7,\"k\":2},{\"n\":\"f842\",\"i\":842,\"k\":12,\"s\":1}]},{\"name\":\"S37M2\",\"o\":2,\"u\":3,\"f\":[{\"n\":\"f13\",\"i\":13,\"k\":5,\"s\":4},{\"n\":\"f28\",\"i\":28,\"k\":4,\"s\":1},{\"n\":\"f262144\",\"i\":262144,\"k\":6,\"s\":6},{\"n\":\"f14\",\"i\":14,\"k\":11,\"s\":3,\"m\":176},{\"n\":\"f9\",\"i\":9,\"k\":9,\"s\":4},{\"n\":\"f1\",\"i\":1,\"k\":2,\"s\":6,\"o\":1},{\"n\":\"f11\",\"i\":11,\"k\":9}]},{\"name\":\"S37M3\",\"o\":2,\"u\":1,\"f\":[{\"n\":\"f8\",\"i\":8,\"k\":17,\"s\":4,\"p\":true},{\"n\":\"f354\",\"i\":354,\"k\":18},{\"n\":\"f859\",\"i\":859,\"k\":12},{\"n\":\"f433580546\",\"i\":433580546,\"k\":5,\"s\":5,\"y\":16},{\"n\":\"f536870910\",\"i\":536870910,\"k\":4,\"s\":6},{\"n\":\"f995\",\"i\":995,\"k\":17,\"s\":4,\"p\":true},{\"n\":\"f381643977\",\"i\":381643977,\"k\":1},{\"n\":\"f997\",\"i\":997,\"k\":16,\"s\":6,\"o\":1}]},{\"name\":\"S37M4\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f172617625\",\"i\":172617625,\"k\":11,\"s\":6,\"m\":176},{\"n\":\"f18999\",\"i\":18999,\"k\":4},{\"n\":\"f40\",\"i\":40,\"k\":18,\"s\":5,\"y\":5},{\"n\":\"f20000\",\"i\":20000,\"k\":8,\"s\":1},{\"n\":\"f2\",\"i\":2,\"k\":11,\"s\":1,\"m\":178},{\"n\":\"f4\",\"i\":4,\"k\":3,\"s\":4,\"p\":true},{\"n\":\"f153236471\",\"i\":153236471,\"k\":1,\"s\":6}]},{\"name\":\"S37M5\",\"f\":[{\"n\":\"f28\",\"i\":28,\"k\":5},{\"n\":\"f1003\",\"i\":1003,\"k\":2},{\"n\":\"f178568561\",\"i\":178568561,\"k\":6},{\"n\":\"f262144\",\"i\":262144,\"k\":17,\"s\":4},{\"n\":\"f34\",\"i\":34,\"k\":16},{\"n\":\"f1005\",\"i\":1005,\"k\":13}]},{\"name\":\"S37M6\",\"f\":[{\"n\":\"f15\",\"i\":15,\"k\":11,\"s\":4,\"m\":178},{\"n\":\"f213\",\"i\":213,\"k\":15}]},{\"name\":\"S38M2\",\"u\":3,\"f\":[{\"n\":\"f536870910\",\"i\":536870910,\"k\":11,\"s\":4,\"m\":181},{\"n\":\"f4\",\"i\":4,\"k\":11,\"s\":1,\"m\":182,\"v\":true},{\"n\":\"f926\",\"i\":926,\"k\":13},{\"n\":\"f15\",\"i\":15,\"k\":11,\"s\":3,\"m\":182},{\"n\":\"f11\",\"i\":11,\"k\":13,\"s\":1},{\"n\":\"f16\",\"i\":16,\"k\":6,\"s\":5,\"y\":17},{\"n\":\"f2\",\"i\":2,\"k\":15},{\"n\":\"f997\",\"i\":997,\"k\":13,\"s\":4,\"p\":true}]},{\"name\":\"S38M3\",\"o\":1,\"f\":[{\"n\":\"f1002\",\"i\":1002,\"k\":3,\"s\":5,\"y\":3},{\"n\":\"f1005\",\"i\":1005,\"k\":12,\"s\":6},{\"n\":\"f4\",\"i\":4,\"k\":12,\"s\":6}]},{\"name\":\"S38M4\",\"o\":1,\"u\":3,\"f\":[{\"n\":\"f2047\",\"i\":2047,\"k\":16,\"s\":6},{\"n\":\"f17\",\"i\":17,\"k\":2,\"s\":4},{\"n\":\"f1003\",\"i\":1003,\"k\":1,\"s\":5,\"y\":9},{\"n\":\"f13\",\"i\":13,\"k\":16}]},{\"name\":\"S39M2\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f536870911\",\"i\":536870911,\"k\":16},{\"n\":\"f997\",\"i\":997,\"k\":12,\"s\":1},{\"n\":\"f4\",\"i\":4,\"k\":6,\"s\":5,\"y\":15},{\"n\":\"f13\",\"i\":13,\"k\":18,\"s\":6},{\"n\":\"f16\",\"i\":16,\"k\":9,\"s\":1}]},{\"name\":\"S40M2\",\"o\":1,\"u\":4,\"f\":[{\"n\":\"f14\",\"i\":14,\"k\":11,\"s\":6,\"m\":185},{\"n\":\"f6\",\"i\":6,\"k\":11,\"s\":6,\"m\":186},{\"n\":\"f2\",\"i\":2,\"k\":13},{\"n\":\"f3\",\"i\":3,\"k\":12,\"s\":6}]},{\"name\":\"S40M3\",\"o\":1,\"u\":4,\"f\":[{\"n\":\"f1001\",\"i\":1001,\"k\":2,\"s\":1},{\"n\":\"f211\",\"i\":211,\"k\":9,\"s\":3},{\"n\":\"f7\",\"i\":7,\"k\":4},{\"n\":\"f1003\",\"i\":1003,\"k\":9},{\"n\":\"f10\",\"i\":10,\"k\":13},{\"n\":\"f33\",\"i\":33,\"k\":4},{\"n\":\"f262144\",\"i\":262144,\"k\":18},{\"n\":\"f995\",\"i\":995,\"k\":8},{\"n\":\"f4\",\"i\":4,\"k\":16,\"s\":6}]},{\"name\":\"S40M4\",\"o\":1,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":9},{\"n\":\"f2\",\"i\":2,\"k\":14,\"s\":1},{\"n\":\"f999\",\"i\":999,\"k\":7,\"s\":1},{\"n\":\"f33554431\",\"i\":33554431,\"k\":17,\"s\":4,\"p\":true},{\"n\":\"f1001\",\"i\":1001,\"k\":4,\"s\":6},{\"n\":\"f14\",\"i\":14,\"k\":5,\"s\":5,\"y\":17},{\"n\":\"f8\",\"i\":8,\"k\":13,\"s\":6},{\"n\":\"f9\",\"i\":9,\"k\":2,\"s\":4,\"p\":true},{\"n\":\"f10\",\"i\":10,\"k\":8,\"s\":1}]},{\"name\":\"S40M5\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f4\",\"i\":4,\"k\":12,\"s\":6},{\"n\":\"f414\",\"i\":414,\"k\":18,\"s\":6},{\"n\":\"f22\",\"i\":22,\"k\":17,\"s\":1},{\"n\":\"f5\",\"i\":5,\"k\":14,\"s\":1}]},{\"name\":\"S41M2\",\"u\":1,\"f\":[{\"n\":\"f31\",\"i\":31,\"k\":2,\"s\":4},{\"n\":\"f10\",\"i\":10,\"k\":13},{\"n\":\"f1\",\"i\":1,\"k\":1,\"s\":4,\"p\":true},{\"n\":\"f4\",\"i\":4,\"k\":16,\"s\":4,\"p\":true},{\"n\":\"f284\",\"i\":284,\"k\":17,\"s\":4,\"p\":true},{\"n\":\"f40\",\"i\":40,\"k\":3},{\"n\":\"f999\",\"i\":999,\"k\":13,\"s\":4,\"p\":true},{\"n\":\"f262143\",\"i\":262143,\"k\":4,\"s\":4},{\"n\":\"f18999\",\"i\":18999,\"k\":11,\"s\":4,\"m\":189}]},{\"name\":\"S41M3\",\"o\":1,\"u\":3,\"f\":[{\"n\":\"f995\",\"i\":995,\"k\":15,\"s\":6},{\"n\":\"f9\",\"i\":9,\"k\":8,\"s\":5,\"y\":8},{\"n\":\"f184\",\"i\":184,\"k\":12,\"s\":4},{\"n\":\"f1003\",\"i\":1003,\"k\":16,\"s\":1},{\"n\":\"f5\",\"i\":5,\"k\":16,\"s\":1},{\"n\":\"f2047\",\"i\":2047,\"k\":17}]},{\"name\":\"S41M4\",\"o\":1,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":3,\"s\":1},{\"n\":\"f4\",\"i\":4,\"k\":14,\"s\":6}]},{\"name\":\"S42M2\",\"u\":1,\"f\":[{\"n\":\"f997\",\"i\":997,\"k\":4,\"s\":1},{\"n\":\"f1000\",\"i\":1000,\"k\":11,\"s\":1,\"m\":192},{\"n\":\"f8\",\"i\":8,\"k\":11,\"s\":1,\"m\":193,\"v\":true},{\"n\":\"f262143\",\"i\":262143,\"k\":2,\"s\":4}]},{\"name\":\"S42M3\",\"u\":3,\"f\":[{\"n\":\"f1000\",\"i\":1000,\"k\":3},{\"n\":\"f15\",\"i\":15,\"k\":12,\"s\":4},{\"n\":\"f999\",\"i\":999,\"k\":9,\"s\":4},{\"n\":\"f21\",\"i\":21,\"k\":4,\"s\":1},{\"n\":\"f9\",\"i\":9,\"k\":13},{\"n\":\"f2047\",\"i\":2047,\"k\":13,\"s\":5,\"y\":5},{\"n\":\"f105\",\"i\":105,\"k\":7,\"s\":4}]},{\"name\":\"S42M4\",\"f\":[{\"n\":\"f13\",\"i\":13,\"k\":8,\"s\":4},{\"n\":\"f9\",\"i\":9,\"k\":9,\"s\":4},{\"n\":\"f14\",\"i\":14,\"k\":2,\"s\":3}]},{\"name\":\"S43M2\",\"u\":4,\"f\":[{\"n\":\"f1003\",\"i\":1003,\"k\":9},{\"n\":\"f3\",\"i\":3,\"k\":11,\"s\":1,\"m\":195},{\"n\":\"f1\",\"i\":1,\"k\":5,\"s\":4,\"p\":true}]},{\"name\":\"S43M3\",\"u\":4,\"f\":[{\"n\":\"f14\",\"i\":14,\"k\":7,\"s\":1}]},{\"name\":\"S44M2\",\"u\":3,\"f\":[{\"n\":\"f37\",\"i\":37,\"k\":11,\"s\":5,\"y\":18,\"m\":197}]},{\"name\":\"S44M3\",\"u\":2,\"f\":[{\"n\":\"f2\",\"i\":2,\"k\":8,\"s\":5,\"y\":18}]},{\"name\":\"S44M4\",\"u\":2,\"f\":[{\"n\":\"f4\",\"i\":4,\"k\":7},{\"n\":\"f12\",\"i\":12,\"k\":17}]},{\"name\":\"S45M2\",\"u\":3,\"f\":[{\"n\":\"f24\",\"i\":24,\"k\":1},{\"n\":\"f3\",\"i\":3,\"k\":1},{\"n\":\"f36\",\"i\":36,\"k\":17,\"s\":4,\"p\":true},{\"n\":\"f999\",\"i\":999,\"k\":13,\"s\":5,\"y\":9},{\"n\":\"f536870911\",\"i\":536870911,\"k\":15,\"s\":1}]},{\"name\":\"S45M3\",\"o\":1,\"u\":4,\"f\":[{\"n\":\"f15\",\"i\":15,\"k\":11,\"s\":6,\"m\":201},{\"n\":\"f16\",\"i\":16,\"k\":7,\"s\":5,\"y\":15}]},{\"name\":\"S45M4\",\"o\":1,\"u\":2,\"f\":[{\"n\":\"f36\",\"i\":36,\"k\":4},{\"n\":\"f293\",\"i\":293,\"k\":5},{\"n\":\"f15\",\"i\":15,\"k\":1,\"s\":1},{\"n\":\"f8\",\"i\":8,\"k\":15,\"s\":1},{\"n\":\"f35\",\"i\":35,\"k\":7,\"s\":6},{\"n\":\"f25\",\"i\":25,\"k\":16,\"s\":5,\"y\":3},{\"n\":\"f12\",\"i\":12,\"k\":13,\"s\":4},{\"n\":\"f3\",\"i\":3,\"k\":9,\"s\":1},{\"n\":\"f4\",\"i\":4,\"k\":9,\"s\":5,\"y\":15}]},{\"name\":\"S45M5\",\"o\":2,\"u\":3,\"f\":[{\"n\":\"f29\",\"i\":29,\"k\":15,\"s\":6},{\"n\":\"f5\",\"i\":5,\"k\":1,\"s\":1},{\"n\":\"f1003\",\"i\":1003,\"k\":5,\"s\":6,\"o\":1},{\"n\":\"f8\",\"i\":8,\"k\":6},{\"n\":\"f33554431\",\"i\":33554431,\"k\":16,\"s\":1},{\"n\":\"f6\",\"i\":6,\"k\":11,\"s\":6,\"m\":203,\"o\":1},{\"n\":\"f2\",\"i\":2,\"k\":9,\"s\":1},{\"n\":\"f33\",\"i\":33,\"k\":17,\"s\":4,\"p\":true}]},{\"name\":\"S45M6\",\"u\":1,\"f\":[{\"n\":\"f29\",\"i\":29,\"k\":12},{\"n\":\"f425\",\"i\":425,\"k\":15}]},{\"name\":\"S46M2\",\"o\":1,\"u\":4,\"f\":[{\"n\":\"f14\",\"i\":14,\"k\":11,\"s\":6,\"m\":205},{\"n\":\"f999\",\"i\":999,\"k\":3,\"s\":1},{\"n\":\"f4\",\"i\":4,\"k\":11,\"s\":1,\"m\":206},{\"n\":\"f249548881\",\"i\":249548881,\"k\":12,\"s\":4},{\"n\":\"f86560497\",\"i\":86560497,\"k\":6,\"s\":3},{\"n\":\"f140\",\"i\":140,\"k\":4}]},{\"name\":\"S46M3\",\"o\":1,\"f\":[{\"n\":\"f998\",\"i\":998,\"k\":7,\"s\":5,\"y\":3},{\"n\":\"f520\",\"i\":520,\"k\":14},{\"n\":\"f33\",\"i\":33,\"k\":7,\"s\":6},{\"n\":\"f9\",\"i\":9,\"k\":16},{\"n\":\"f2048\",\"i\":2048,\"k\":13},{\"n\":\"f76472703\",\"i\":76472703,\"k\":18,\"s\":1},{\"n\":\"f5\",\"i\":5,\"k\":12,\"s\":5,\"y\":17},{\"n\":\"f18999\",\"i\":18999,\"k\":1,\"s\":4}]},{\"name\":\"S46M4\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f15\",\"i\":15,\"k\":1,\"s\":6},{\"n\":\"f11\",\"i\":11,\"k\":3,\"s\":5,\"y\":9},{\"n\":\"f33554431\",\"i\":33554431,\"k\":18,\"s\":6},{\"n\":\"f7\",\"i\":7,\"k\":1,\"s\":4},{\"n\":\"f8\",\"i\":8,\"k\":5,\"s\":1},{\"n\":\"f10\",\"i\":10,\"k\":14,\"s\":1},{\"n\":\"f27\",\"i\":27,\"k\":16,\"s\":5,\"y\":8},{\"n\":\"f997\",\"i\":997,\"k\":15,\"s\":5,\"y\":3},{\"n\":\"f17\",\"i\":17,\"k\":13,\"s\":6},{\"n\":\"f4\",\"i\":4,\"k\":1,\"s\":5,\"y\":3}]},{\"name\":\"MutB\",\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":11,\"s\":1,\"m\":50},{\"n\":\"f2\",\"i\":2,\"k\":11,\"s\":5,\"y\":17,\"m\":50},{\"n\":\"f3\",\"i\":3,\"k\":1}]},{\"name\":\"Leaf\",\"u\":1,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":5},{\"n\":\"f2\",\"i\":2,\"k\":9,\"s\":4}]}]"

var entries = []Entry{
	{"S0M1", reflect.TypeFor[S0M1](), (*S0M1)(nil).XXX_OneofWrappers()},
	{"S1M1", reflect.TypeFor[S1M1](), (*S1M1)(nil).XXX_OneofWrappers()},
	{"S1M2", reflect.TypeFor[S1M2](), (*S1M2)(nil).XXX_OneofWrappers()},
	{"S1M3", reflect.TypeFor[S1M3](), (*S1M3)(nil).XXX_OneofWrappers()},
	{"S1M4", reflect.TypeFor[S1M4](), (*S1M4)(nil).XXX_OneofWrappers()},
	{"S1M5", reflect.TypeFor[S1M5](), (*S1M5)(nil).XXX_OneofWrappers()},
	{"S2M1", reflect.TypeFor[S2M1](), (*S2M1)(nil).XXX_OneofWrappers()},
	{"S2M2", reflect.TypeFor[S2M2](), (*S2M2)(nil).XXX_OneofWrappers()},
	{"S2M3", reflect.TypeFor[S2M3](), (*S2M3)(nil).XXX_OneofWrappers()},
	{"S2M4", reflect.TypeFor[S2M4](), (*S2M4)(nil).XXX_OneofWrappers()},
	{"S2M5", reflect.TypeFor[S2M5](), (*S2M5)(nil).XXX_OneofWrappers()},
	{"S3M1", reflect.TypeFor[S3M1](), (*S3M1)(nil).XXX_OneofWrappers()},
	{"S3M2", reflect.TypeFor[S3M2](), (*S3M2)(nil).XXX_OneofWrappers()},
	{"S3M3", reflect.TypeFor[S3M3](), (*S3M3)(nil).XXX_OneofWrappers()},
	{"S3M4", reflect.TypeFor[S3M4](), (*S3M4)(nil).XXX_OneofWrappers()},
	{"S3M5", reflect.TypeFor[S3M5](), (*S3M5)(nil).XXX_OneofWrappers()},
	{"S4M1", reflect.TypeFor[S4M1](), (*S4M1)(nil).XXX_OneofWrappers()},
	{"S4M2", reflect.TypeFor[S4M2](), (*S4M2)(nil).XXX_OneofWrappers()},
	{"S4M3", reflect.TypeFor[S4M3](), (*S4M3)(nil).XXX_OneofWrappers()},
	{"S4M4", reflect.TypeFor[S4M4](), (*S4M4)(nil).XXX_OneofWrappers()},
	{"S5M1", reflect.TypeFor[S5M1](), (*S5M1)(nil).XXX_OneofWrappers()},
	{"S5M2", reflect.TypeFor[S5M2](), (*S5M2)(nil).XXX_OneofWrappers()},
	{"S6M1", reflect.TypeFor[S6M1](), (*S6M1)(nil).XXX_OneofWrappers()},
	{"S6M2", reflect.TypeFor[S6M2](), (*S6M2)(nil).XXX_OneofWrappers()},
	{"S6M3", reflect.TypeFor[S6M3](), (*S6M3)(nil).XXX_OneofWrappers()},
	{"S6M4", reflect.TypeFor[S6M4](), (*S6M4)(nil).XXX_OneofWrappers()},
	{"S6M5", reflect.TypeFor[S6M5](), (*S6M5)(nil).XXX_OneofWrappers()},
	{"S6M6", reflect.TypeFor[S6M6](), (*S6M6)(nil).XXX_OneofWrappers()},
	{"S6M7", reflect.TypeFor[S6M7](), (*S6M7)(nil).XXX_OneofWrappers()},
	{"S6M8", reflect.TypeFor[S6M8](), (*S6M8)(nil).XXX_OneofWrappers()},
	{"S7M1", reflect.TypeFor[S7M1](), (*S7M1)(nil).XXX_OneofWrappers()},
	{"S7M2", reflect.TypeFor[S7M2](), (*S7M2)(nil).XXX_OneofWrappers()},
	{"S7M3", reflect.TypeFor[S7M3](), (*S7M3)(nil).XXX_OneofWrappers()},
	{"S7M4", reflect.TypeFor[S7M4](), (*S7M4)(nil).XXX_OneofWrappers()},
	{"S8M1", reflect.TypeFor[S8M1](), (*S8M1)(nil).XXX_OneofWrappers()},
	{"S8M2", reflect.TypeFor[S8M2](), (*S8M2)(nil).XXX_OneofWrappers()},
	{"S8M3", reflect.TypeFor[S8M3](), (*S8M3)(nil).XXX_OneofWrappers()},
	{"S8M4", reflect.TypeFor[S8M4](), (*S8M4)(nil).XXX_OneofWrappers()},
	{"S8M5", reflect.TypeFor[S8M5](), (*S8M5)(nil).XXX_OneofWrappers()},
	{"S9M1", reflect.TypeFor[S9M1](), (*S9M1)(nil).XXX_OneofWrappers()},
	{"S9M2", reflect.TypeFor[S9M2](), (*S9M2)(nil).XXX_OneofWrappers()},
	{"S9M3", reflect.TypeFor[S9M3](), (*S9M3)(nil).XXX_OneofWrappers()},
	{"S9M4", reflect.TypeFor[S9M4](), (*S9M4)(nil).XXX_OneofWrappers()},
	{"S9M5", reflect.TypeFor[S9M5](), (*S9M5)(nil).XXX_OneofWrappers()},
	{"S10M1", reflect.TypeFor[S10M1](), (*S10M1)(nil).XXX_OneofWrappers()},
	{"S10M2", reflect.TypeFor[S10M2](), (*S10M2)(nil).XXX_OneofWrappers()},
	{"S10M3", reflect.TypeFor[S10M3](), (*S10M3)(nil).XXX_OneofWrappers()},
	{"S11M1", reflect.TypeFor[S11M1](), (*S11M1)(nil).XXX_OneofWrappers()},
	{"S12M1", reflect.TypeFor[S12M1](), (*S12M1)(nil).XXX_OneofWrappers()},
	{"S13M1", reflect.TypeFor[S13M1](), (*S13M1)(nil).XXX_OneofWrappers()},
	{"S14M1", reflect.TypeFor[S14M1](), (*S14M1)(nil).XXX_OneofWrappers()},
	{"S15M1", reflect.TypeFor[S15M1](), (*S15M1)(nil).XXX_OneofWrappers()},
	{"S16M1", reflect.TypeFor[S16M1](), (*S16M1)(nil).XXX_OneofWrappers()},
	{"S16M2", reflect.TypeFor[S16M2](), (*S16M2)(nil).XXX_OneofWrappers()},
	{"S16M3", reflect.TypeFor[S16M3](), (*S16M3)(nil).XXX_OneofWrappers()},
	{"S16M4", reflect.TypeFor[S16M4](), (*S16M4)(nil).XXX_OneofWrappers()},
	{"S17M1", reflect.TypeFor[S17M1](), (*S17M1)(nil).XXX_OneofWrappers()},
	{"S17M2", reflect.TypeFor[S17M2](), (*S17M2)(nil).XXX_OneofWrappers()},
	{"S17M3", reflect.TypeFor[S17M3](), (*S17M3)(nil).XXX_OneofWrappers()},
	{"S17M4", reflect.TypeFor[S17M4](), (*S17M4)(nil).XXX_OneofWrappers()},
	{"S17M5", reflect.TypeFor[S17M5](), (*S17M5)(nil).XXX_OneofWrappers()},
	{"S17M6", reflect.TypeFor[S17M6](), (*S17M6)(nil).XXX_OneofWrappers()},
	{"S17M7", reflect.TypeFor[S17M7](), (*S17M7)(nil).XXX_OneofWrappers()},
	{"S18M1", reflect.TypeFor[S18M1](), (*S18M1)(nil).XXX_OneofWrappers()},
	{"S18M2", reflect.TypeFor[S18M2](), (*S18M2)(nil).XXX_OneofWrappers()},
	{"S18M3", reflect.TypeFor[S18M3](), (*S18M3)(nil).XXX_OneofWrappers()},
	{"S18M4", reflect.TypeFor[S18M4](), (*S18M4)(nil).XXX_OneofWrappers()},
	{"S18M5", reflect.TypeFor[S18M5](), (*S18M5)(nil).XXX_OneofWrappers()},
	{"S18M6", reflect.TypeFor[S18M6](), (*S18M6)(nil).XXX_OneofWrappers()},
	{"S18M7", reflect.TypeFor[S18M7](), (*S18M7)(nil).XXX_OneofWrappers()},
	{"S19M1", reflect.TypeFor[S19M1](), (*S19M1)(nil).XXX_OneofWrappers()},
	{"S19M2", reflect.TypeFor[S19M2](), (*S19M2)(nil).XXX_OneofWrappers()},
	{"S19M3", reflect.TypeFor[S19M3](), (*S19M3)(nil).XXX_OneofWrappers()},
	{"S19M4", reflect.TypeFor[S19M4](), (*S19M4)(nil).XXX_OneofWrappers()},
	{"S20M1", reflect.TypeFor[S20M1](), (*S20M1)(nil).XXX_OneofWrappers()},
	{"S20M2", reflect.TypeFor[S20M2](), (*S20M2)(nil).XXX_OneofWrappers()},
	{"S20M3", reflect.TypeFor[S20M3](), (*S20M3)(nil).XXX_OneofWrappers()},
	{"S20M4", reflect.TypeFor[S20M4](), (*S20M4)(nil).XXX_OneofWrappers()},
	{"S21M1", reflect.TypeFor[S21M1](), (*S21M1)(nil).XXX_OneofWrappers()},
	{"S21M2", reflect.TypeFor[S21M2](), (*S21M2)(nil).XXX_OneofWrappers()},
	{"S21M3", reflect.TypeFor[S21M3](), (*S21M3)(nil).XXX_OneofWrappers()},
	{"S21M4", reflect.TypeFor[S21M4](), (*S21M4)(nil).XXX_OneofWrappers()},
	{"S21M5", reflect.TypeFor[S21M5](), (*S21M5)(nil).XXX_OneofWrappers()},
	{"S21M6", reflect.TypeFor[S21M6](), (*S21M6)(nil).XXX_OneofWrappers()},
	{"S21M7", reflect.TypeFor[S21M7](), (*S21M7)(nil).XXX_OneofWrappers()},
	{"S21M8", reflect.TypeFor[S21M8](), (*S21M8)(nil).XXX_OneofWrappers()},
	{"S22M1", reflect.TypeFor[S22M1](), (*S22M1)(nil).XXX_OneofWrappers()},
	{"S22M2", reflect.TypeFor[S22M2](), (*S22M2)(nil).XXX_OneofWrappers()},
	{"S23M1", reflect.TypeFor[S23M1](), (*S23M1)(nil).XXX_OneofWrappers()},
	{"S23M2", reflect.TypeFor[S23M2](), (*S23M2)(nil).XXX_OneofWrappers()},
	{"S23M3", reflect.TypeFor[S23M3](), (*S23M3)(nil).XXX_OneofWrappers()},
	{"S23M4", reflect.TypeFor[S23M4](), (*S23M4)(nil).XXX_OneofWrappers()},
	{"S24M1", reflect.TypeFor[S24M1](), (*S24M1)(nil).XXX_OneofWrappers()},
	{"S24M2", reflect.TypeFor[S24M2](), (*S24M2)(nil).XXX_OneofWrappers()},
	{"S24M3", reflect.TypeFor[S24M3](), (*S24M3)(nil).XXX_OneofWrappers()},
	{"S24M4", reflect.TypeFor[S24M4](), (*S24M4)(nil).XXX_OneofWrappers()},
	{"S25M1", reflect.TypeFor[S25M1](), (*S25M1)(nil).XXX_OneofWrappers()},
	{"S25M2", reflect.TypeFor[S25M2](), (*S25M2)(nil).XXX_OneofWrappers()},
	{"S25M3", reflect.TypeFor[S25M3](), (*S25M3)(nil).XXX_OneofWrappers()},
	{"S25M4", reflect.TypeFor[S25M4](), (*S25M4)(nil).XXX_OneofWrappers()},
	{"S26M1", reflect.TypeFor[S26M1](), (*S26M1)(nil).XXX_OneofWrappers()},
	{"S27M1", reflect.TypeFor[S27M1](), (*S27M1)(nil).XXX_OneofWrappers()},
	{"S28M1", reflect.TypeFor[S28M1](), (*S28M1)(nil).XXX_OneofWrappers()},
	{"S28M2", reflect.TypeFor[S28M2](), (*S28M2)(nil).XXX_OneofWrappers()},
	{"S28M3", reflect.TypeFor[S28M3](), (*S28M3)(nil).XXX_OneofWrappers()},
	{"S28M4", reflect.TypeFor[S28M4](), (*S28M4)(nil).XXX_OneofWrappers()},
	{"S29M1", reflect.TypeFor[S29M1](), (*S29M1)(nil).XXX_OneofWrappers()},
	{"S30M1", reflect.TypeFor[S30M1](), (*S30M1)(nil).XXX_OneofWrappers()},
	{"S30M2", reflect.TypeFor[S30M2](), (*S30M2)(nil).XXX_OneofWrappers()},
	{"S30M3", reflect.TypeFor[S30M3](), (*S30M3)(nil).XXX_OneofWrappers()},
	{"S30M4", reflect.TypeFor[S30M4](), (*S30M4)(nil).XXX_OneofWrappers()},
	{"S30M5", reflect.TypeFor[S30M5](), (*S30M5)(nil).XXX_OneofWrappers()},
	{"S31M1", reflect.TypeFor[S31M1](), (*S31M1)(nil).XXX_OneofWrappers()},
	{"S31M2", reflect.TypeFor[S31M2](), (*S31M2)(nil).XXX_OneofWrappers()},
	{"S31M3", reflect.TypeFor[S31M3](), (*S31M3)(nil).XXX_OneofWrappers()},
	{"S31M4", reflect.TypeFor[S31M4](), (*S31M4)(nil).XXX_OneofWrappers()},
	{"S31M5", reflect.TypeFor[S31M5](), (*S31M5)(nil).XXX_OneofWrappers()},
	{"S31M6", reflect.TypeFor[S31M6](), (*S31M6)(nil).XXX_OneofWrappers()},
	{"S31M7", reflect.TypeFor[S31M7](), (*S31M7)(nil).XXX_OneofWrappers()},
	{"S32M1", reflect.TypeFor[S32M1](), (*S32M1)(nil).XXX_OneofWrappers()},
	{"S32M2", reflect.TypeFor[S32M2](), (*S32M2)(nil).XXX_OneofWrappers()},
	{"S32M3", reflect.TypeFor[S32M3](), (*S32M3)(nil).XXX_OneofWrappers()},
	{"S33M1", reflect.TypeFor[S33M1](), (*S33M1)(nil).XXX_OneofWrappers()},
	{"S33M2", reflect.TypeFor[S33M2](), (*S33M2)(nil).XXX_OneofWrappers()},
	{"S33M3", reflect.TypeFor[S33M3](), (*S33M3)(nil).XXX_OneofWrappers()},
	{"S33M4", reflect.TypeFor[S33M4](), (*S33M4)(nil).XXX_OneofWrappers()},
	{"S33M5", reflect.TypeFor[S33M5](), (*S33M5)(nil).XXX_OneofWrappers()},
	{"S33M6", reflect.TypeFor[S33M6](), (*S33M6)(nil).XXX_OneofWrappers()},
	{"S33M7", reflect.TypeFor[S33M7](), (*S33M7)(nil).XXX_OneofWrappers()},
	{"S33M8", reflect.TypeFor[S33M8](), (*S33M8)(nil).XXX_OneofWrappers()},
	{"S33M9", reflect.TypeFor[S33M9](), (*S33M9)(nil).XXX_OneofWrappers()},
	{"S33M10", reflect.TypeFor[S33M10](), (*S33M10)(nil).XXX_OneofWrappers()},
	{"S33M11", reflect.TypeFor[S33M11](), (*S33M11)(nil).XXX_OneofWrappers()},
	{"S33M12", reflect.TypeFor[S33M12](), (*S33M12)(nil).XXX_OneofWrappers()},
	{"S33M13", reflect.TypeFor[S33M13](), (*S33M13)(nil).XXX_OneofWrappers()},
	{"S33M14", reflect.TypeFor[S33M14](), (*S33M14)(nil).XXX_OneofWrappers()},
	{"S34M1", reflect.TypeFor[S34M1](), (*S34M1)(nil).XXX_OneofWrappers()},
	{"S35M1", reflect.TypeFor[S35M1](), (*S35M1)(nil).XXX_OneofWrappers()},
	{"S36M1", reflect.TypeFor[S36M1](), (*S36M1)(nil).XXX_OneofWrappers()},
	{"S36M2", reflect.TypeFor[S36M2](), (*S36M2)(nil).XXX_OneofWrappers()},
	{"S36M3", reflect.TypeFor[S36M3](), (*S36M3)(nil).XXX_OneofWrappers()},
	{"S36M4", reflect.TypeFor[S36M4](), (*S36M4)(nil).XXX_OneofWrappers()},
	{"S37M1", reflect.TypeFor[S37M1](), (*S37M1)(nil).XXX_OneofWrappers()},
	{"S37M2", reflect.TypeFor[S37M2](), (*S37M2)(nil).XXX_OneofWrappers()},
	{"S37M3", reflect.TypeFor[S37M3](), (*S37M3)(nil).XXX_OneofWrappers()},
	{"S37M4", reflect.TypeFor[S37M4](), (*S37M4)(nil).XXX_OneofWrappers()},
	{"S37M5", reflect.TypeFor[S37M5](), (*S37M5)(nil).XXX_OneofWrappers()},
	{"S37M6", reflect.TypeFor[S37M6](), (*S37M6)(nil).XXX_OneofWrappers()},
	{"S38M1", reflect.TypeFor[S38M1](), (*S38M1)(nil).XXX_OneofWrappers()},
	{"S38M2", reflect.TypeFor[S38M2](), (*S38M2)(nil).XXX_OneofWrappers()},
	{"S38M3", reflect.TypeFor[S38M3](), (*S38M3)(nil).XXX_OneofWrappers()},
	{"S38M4", reflect.TypeFor[S38M4](), (*S38M4)(nil).XXX_OneofWrappers()},
	{"S39M1", reflect.TypeFor[S39M1](), (*S39M1)(nil).XXX_OneofWrappers()},
	{"S39M2", reflect.TypeFor[S39M2](), (*S39M2)(nil).XXX_OneofWrappers()},
	{"S40M1", reflect.TypeFor[S40M1](), (*S40M1)(nil).XXX_OneofWrappers()},
	{"S40M2", reflect.TypeFor[S40M2](), (*S40M2)(nil).XXX_OneofWrappers()},
	{"S40M3", reflect.TypeFor[S40M3](), (*S40M3)(nil).XXX_OneofWrappers()},
	{"S40M4", reflect.TypeFor[S40M4](), (*S40M4)(nil).XXX_OneofWrappers()},
	{"S40M5", reflect.TypeFor[S40M5](), (*S40M5)(nil).XXX_OneofWrappers()},
	{"S41M1", reflect.TypeFor[S41M1](), (*S41M1)(nil).XXX_OneofWrappers()},
	{"S41M2", reflect.TypeFor[S41M2](), (*S41M2)(nil).XXX_OneofWrappers()},
	{"S41M3", reflect.TypeFor[S41M3](), (*S41M3)(nil).XXX_OneofWrappers()},
	{"S41M4", reflect.TypeFor[S41M4](), (*S41M4)(nil).XXX_OneofWrappers()},
	{"S42M1", reflect.TypeFor[S42M1](), (*S42M1)(nil).XXX_OneofWrappers()},
	{"S42M2", reflect.TypeFor[S42M2](), (*S42M2)(nil).XXX_OneofWrappers()},
	{"S42M3", reflect.TypeFor[S42M3](), (*S42M3)(nil).XXX_OneofWrappers()},
	{"S42M4", reflect.TypeFor[S42M4](), (*S42M4)(nil).XXX_OneofWrappers()},
	{"S43M1", reflect.TypeFor[S43M1](), (*S43M1)(nil).XXX_OneofWrappers()},
	{"S43M2", reflect.TypeFor[S43M2](), (*S43M2)(nil).XXX_OneofWrappers()},
	{"S43M3", reflect.TypeFor[S43M3](), (*S43M3)(nil).XXX_OneofWrappers()},
	{"S44M1", reflect.TypeFor[S44M1](), (*S44M1)(nil).XXX_OneofWrappers()},
	{"S44M2", reflect.TypeFor[S44M2](), (*S44M2)(nil).XXX_OneofWrappers()},
	{"S44M3", reflect.TypeFor[S44M3](), (*S44M3)(nil).XXX_OneofWrappers()},
	{"S44M4", reflect.TypeFor[S44M4](), (*S44M4)(nil).XXX_OneofWrappers()},
	{"S45M1", reflect.TypeFor[S45M1](), (*S45M1)(nil).XXX_OneofWrappers()},
	{"S45M2", reflect.TypeFor[S45M2](), (*S45M2)(nil).XXX_OneofWrappers()},
	{"S45M3", reflect.TypeFor[S45M3](), (*S45M3)(nil).XXX_OneofWrappers()},
	{"S45M4", reflect.TypeFor[S45M4](), (*S45M4)(nil).XXX_OneofWrappers()},
	{"S45M5", reflect.TypeFor[S45M5](), (*S45M5)(nil).XXX_OneofWrappers()},
	{"S45M6", reflect.TypeFor[S45M6](), (*S45M6)(nil).XXX_OneofWrappers()},
	{"S46M1", reflect.TypeFor[S46M1](), (*S46M1)(nil).XXX_OneofWrappers()},
	{"S46M2", reflect.TypeFor[S46M2](), (*S46M2)(nil).XXX_OneofWrappers()},
	{"S46M3", reflect.TypeFor[S46M3](), (*S46M3)(nil).XXX_OneofWrappers()},
	{"S46M4", reflect.TypeFor[S46M4](), (*S46M4)(nil).XXX_OneofWrappers()},
	{"S47M1", reflect.TypeFor[S47M1](), (*S47M1)(nil).XXX_OneofWrappers()},
	{"Rec", reflect.TypeFor[Rec](), (*Rec)(nil).XXX_OneofWrappers()},
	{"MutA", reflect.TypeFor[MutA](), (*MutA)(nil).XXX_OneofWrappers()},
	{"MutB", reflect.TypeFor[MutB](), (*MutB)(nil).XXX_OneofWrappers()},
	{"AllImplicit", reflect.TypeFor[AllImplicit](), (*AllImplicit)(nil).XXX_OneofWrappers()},
	{"AllExplicit", reflect.TypeFor[AllExplicit](), (*AllExplicit)(nil).XXX_OneofWrappers()},
	{"AllRepeated", reflect.TypeFor[AllRepeated](), (*AllRepeated)(nil).XXX_OneofWrappers()},
	{"AllOneof", reflect.TypeFor[AllOneof](), (*AllOneof)(nil).XXX_OneofWrappers()},
	{"Maps0", reflect.TypeFor[Maps0](), (*Maps0)(nil).XXX_OneofWrappers()},
	{"Leaf", reflect.TypeFor[Leaf](), (*Leaf)(nil).XXX_OneofWrappers()},
	{"Maps1", reflect.TypeFor[Maps1](), (*Maps1)(nil).XXX_OneofWrappers()},
	{"Maps2", reflect.TypeFor[Maps2](), (*Maps2)(nil).XXX_OneofWrappers()},
	{"Maps3", reflect.TypeFor[Maps3](), (*Maps3)(nil).XXX_OneofWrappers()},
	{"Maps4", reflect.TypeFor[Maps4](), (*Maps4)(nil).XXX_OneofWrappers()},
	{"Maps5", reflect.TypeFor[Maps5](), (*Maps5)(nil).XXX_OneofWrappers()},
	{"Maps6", reflect.TypeFor[Maps6](), (*Maps6)(nil).XXX_OneofWrappers()},
	{"Maps7", reflect.TypeFor[Maps7](), (*Maps7)(nil).XXX_OneofWrappers()},
	{"Maps8", reflect.TypeFor[Maps8](), (*Maps8)(nil).XXX_OneofWrappers()},
	{"Maps9", reflect.TypeFor[Maps9](), (*Maps9)(nil).XXX_OneofWrappers()},
	{"Maps10", reflect.TypeFor[Maps10](), (*Maps10)(nil).XXX_OneofWrappers()},
	{"Maps11", reflect.TypeFor[Maps11](), (*Maps11)(nil).XXX_OneofWrappers()},
	{"BigOneof", reflect.TypeFor[BigOneof](), (*BigOneof)(nil).XXX_OneofWrappers()},
	{"RecVal", reflect.TypeFor[RecVal](), (*RecVal)(nil).XXX_OneofWrappers()},
	{"OneofVal", reflect.TypeFor[OneofVal](), (*OneofVal)(nil).XXX_OneofWrappers()},
}

type S0M1 struct {
	F995             map[int32]bool `protobuf:"bytes,995,rep,name=f995,json=jf995" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf995,omitempty"`
	F4               *float32       `protobuf:"fixed32,4,opt,name=f4,proto3,oneof"`
	F14              *int32         `protobuf:"zigzag32,14,opt,name=f14,json=jf14,def=42" json:"jf14,omitempty"`
	XXX_unrecognized []byte         `json:"-"`
}

func (*S0M1) XXX_OneofWrappers() []any {
	return []any{}
}

type S1M1 struct {
	F1003            uint32  `protobuf:"fixed32,1003,opt,name=f1003,proto3"`
	F1001            int32   `protobuf:"varint,1001,opt,name=f1001,json=jf1001,proto3" json:"jf1001,omitempty"`
	F13              float64 `protobuf:"fixed64,13,opt,name=f13,proto3"`
	Canary2          uint8
	F20000           sch.E           `protobuf:"varint,20000,opt,name=f20000,json=jf20000,proto3,enum=t.E" json:"jf20000,omitempty"`
	F3               []int32         `protobuf:"zigzag32,3,rep,packed"`
	F2048            S1M2            `protobuf:"bytes,2048,opt,name=f2048,json=jf2048" json:"jf2048,omitempty"`
	F520             map[int32]int64 `protobuf:"bytes,520,rep,name=f520,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	F11              []S1M4          `protobuf:"bytes,11,rep,name=f11,json=jf11" json:"jf11,omitempty"`
	F730             S1M3            `protobuf:"bytes,730,opt,name=f730,proto3"`
	XXX_unrecognized *[]byte         `json:"-"`
}

func (*S1M1) XXX_OneofWrappers() []any {
	return []any{}
}

type S1M2 struct {
	F7            map[uint64]int32 `protobuf:"bytes,7,rep,name=f7,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	F13           string           `protobuf:"bytes,13,opt,name=f13,proto3"`
	Canary1       uint8
	F1005         [][]byte          `protobuf:"bytes,1005,rep"`
	F37           []bool            `protobuf:"varint,37,rep,packed,name=f37,proto3"`
	F1            map[string]string `protobuf:"bytes,1,rep,name=f1,proto3" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	O0            isS1M2_O0         `protobuf_oneof:"o0"`
	F8            *S1M3             `protobuf:"bytes,8,req,name=f8,json=jf8" json:"jf8,omitempty"`
	unknownFields *[]byte
}

type isS1M2_O0 interface{ isS1M2_O0() }

func (*S1M2) XXX_OneofWrappers() []any {
	return []any{(*S1M2_F15)(nil)}
}

type S1M2_F15 struct {
	F15 uint64 `protobuf:"varint,15,opt,oneof"`
}

func (*S1M2_F15) isS1M2_O0() {}

type S1M3 struct {
	F2            *string `protobuf:"bytes,2,opt,name=f2,json=jf2,def=a,7,rep,packed,b" json:"jf2,omitempty"`
	Canary0       uint8
	F9            *int32    `protobuf:"zigzag32,9,opt"`
	F2048         int64     `protobuf:"fixed64,2048,opt,name=f2048,json=jf2048,proto3" json:"jf2048,omitempty"`
	O0            isS1M3_O0 `protobuf_oneof:"o0"`
	F13           float64   `protobuf:"fixed64,13,opt,name=f13,proto3"`
	unknownFields *[]byte
}

type isS1M3_O0 interface{ isS1M3_O0() }

func (*S1M3) XXX_OneofWrappers() []any {
	return []any{(*S1M3_F33554431)(nil)}
}

type S1M3_F33554431 struct {
	F33554431 string `protobuf:"bytes,33554431,opt,name=f33554431,proto3,oneof"`
}

func (*S1M3_F33554431) isS1M3_O0() {}

type S1M4 struct {
	F536870910    *S1M5   `protobuf:"bytes,536870910,req"`
	F254648218    *int32  `protobuf:"varint,254648218,opt,name=f254648218,proto3,oneof"`
	F150          *uint64 `protobuf:"fixed64,150,req"`
	unknownFields []byte
}

func (*S1M4) XXX_OneofWrappers() []any {
	return []any{}
}

type S1M5 struct {
	F115             uint64          `protobuf:"varint,115,opt,name=f115,proto3"`
	F611             uint32          `protobuf:"fixed32,611,opt,name=f611,json=jf611,proto3" json:"jf611,omitempty"`
	F262144          float64         `protobuf:"fixed64,262144,opt,name=f262144,proto3"`
	F663             []int64         `protobuf:"zigzag64,663,rep,packed"`
	F549             *uint32         `protobuf:"varint,549,opt"`
	F2               map[int32]int64 `protobuf:"bytes,2,rep,name=f2,json=jf2" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf2,omitempty"`
	Canary5          string
	XXX_unrecognized *[]byte `json:"-"`
}

func (*S1M5) XXX_OneofWrappers() []any {
	return []any{}
}

type S2M1 struct {
	F8               int64            `protobuf:"fixed64,8,opt,name=f8,json=jf8,proto3" json:"jf8,omitempty"`
	F33554431        map[int32]uint64 `protobuf:"bytes,33554431,rep,name=f33554431,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F583             []int32          `protobuf:"varint,583,rep,name=f583,proto3"`
	F529560179       []byte           `protobuf:"bytes,529560179,opt,name=f529560179,json=jf529560179,def=x,req,varint,3" json:"jf529560179,omitempty"`
	F925             *int64           `protobuf:"varint,925,opt,name=f925,proto3,oneof"`
	Canary4          string
	O0               isS2M1_O0        `protobuf_oneof:"o0"`
	F32              float32          `protobuf:"fixed32,32,opt,name=f32,json=jf32,proto3" json:"jf32,omitempty"`
	F21              sch.E            `protobuf:"varint,21,opt,proto3"`
	F20              *S2M2            `protobuf:"bytes,20,opt,name=f20,json=jf20" json:"jf20,omitempty"`
	F529087246       map[int32]uint32 `protobuf:"bytes,529087246,rep,name=f529087246,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	XXX_unrecognized *[]byte          `json:"-"`
}

type isS2M1_O0 interface{ isS2M1_O0() }

func (*S2M1) XXX_OneofWrappers() []any {
	return []any{(*S2M1_F3)(nil)}
}

type S2M1_F3 struct {
	F3 int64 `protobuf:"varint,3,opt,oneof"`
}

func (*S2M1_F3) isS2M1_O0() {}

type S2M2 struct {
	F7            *S2M3            `protobuf:"bytes,7,opt,name=f7,proto3"`
	F383573839    []uint32         `protobuf:"fixed32,383573839,rep,name=f383573839,proto3"`
	F12           int64            `protobuf:"zigzag64,12,opt,proto3"`
	F51084766     map[int32]uint32 `protobuf:"bytes,51084766,rep,name=f51084766,proto3" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	Canary3       string
	F1            map[int64]uint64 `protobuf:"bytes,1,rep,name=f1,proto3" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	O0            isS2M2_O0        `protobuf_oneof:"o0"`
	F262144       map[uint32]S2M5  `protobuf:"bytes,262144,rep,name=f262144,proto3" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	O1            isS2M2_O1        `protobuf_oneof:"o1"`
	F30           map[int64]int32  `protobuf:"bytes,30,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	unknownFields []byte
}

type isS2M2_O0 interface{ isS2M2_O0() }

type isS2M2_O1 interface{ isS2M2_O1() }

func (*S2M2) XXX_OneofWrappers() []any {
	return []any{(*S2M2_F13)(nil), (*S2M2_F2)(nil), (*S2M2_F26)(nil)}
}

type S2M2_F13 struct {
	F13 *S2M4 `protobuf:"bytes,13,opt,name=f13,proto3,oneof"`
}

func (*S2M2_F13) isS2M2_O0() {}

type S2M2_F2 struct {
	F2 *S2M3 `protobuf:"bytes,2,opt,name=f2,json=jf2,oneof" json:"jf2,omitempty"`
}

func (*S2M2_F2) isS2M2_O1() {}

type S2M2_F26 struct {
	F26 uint64 `protobuf:"varint,26,opt,name=f26,json=jf26,oneof" json:"jf26,omitempty"`
}

func (*S2M2_F26) isS2M2_O0() {}

type S2M3 struct {
	F10              *[]byte `protobuf:"bytes,10,opt,name=f10"`
	F262143          []int64 `protobuf:"zigzag64,262143,rep"`
	F12              *int64  `protobuf:"zigzag64,12,opt"`
	Canary2          string
	O0               isS2M3_O0 `protobuf_oneof:"o0"`
	XXX_unrecognized *[]byte   `json:"-"`
}

type isS2M3_O0 interface{ isS2M3_O0() }

func (*S2M3) XXX_OneofWrappers() []any {
	return []any{(*S2M3_F32)(nil)}
}

type S2M3_F32 struct {
	F32 float32 `protobuf:"fixed32,32,opt,name=f32,json=jf32,oneof" json:"jf32,omitempty"`
}

func (*S2M3_F32) isS2M3_O0() {}

type S2M4 struct {
	F1006         *uint32 `protobuf:"varint,1006,opt,name=f1006,proto3,oneof"`
	F13           []int32 `protobuf:"fixed32,13,rep,packed,name=f13,proto3"`
	Canary1       string
	F11           []uint32 `protobuf:"fixed32,11,rep,name=f11,json=jf11" json:"jf11,omitempty"`
	F422          []uint32 `protobuf:"varint,422,rep,name=f422,json=jf422" json:"jf422,omitempty"`
	unknownFields *[]byte
}

func (*S2M4) XXX_OneofWrappers() []any {
	return []any{}
}

type S2M5 struct {
	F2               []int64 `protobuf:"fixed64,2,rep,packed,name=f2,json=jf2" json:"jf2,omitempty"`
	Canary0          string
	XXX_unrecognized *[]byte `json:"-"`
}

func (*S2M5) XXX_OneofWrappers() []any {
	return []any{}
}

type S3M1 struct {
	F146          *int32            `protobuf:"varint,146,opt,name=f146,json=jf146,def=42" json:"jf146,omitempty"`
	O0            isS3M1_O0         `protobuf_oneof:"o0"`
	F1            sch.E             `protobuf:"varint,1,opt,name=f1,proto3,enum=t.E"`
	F219          int64             `protobuf:"fixed64,219,opt,proto3"`
	F1000         map[int64]float32 `protobuf:"bytes,1000,rep,name=f1000,proto3" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F719          *S3M2             `protobuf:"bytes,719,opt,name=f719,json=jf719" json:"jf719,omitempty"`
	F16           *uint64           `protobuf:"varint,16,opt,name=f16,proto3,oneof"`
	Canary6       uint64
	unknownFields []byte
}

type isS3M1_O0 interface{ isS3M1_O0() }

func (*S3M1) XXX_OneofWrappers() []any {
	return []any{(*S3M1_F37)(nil), (*S3M1_F18999)(nil)}
}

type S3M1_F37 struct {
	F37 float32 `protobuf:"fixed32,37,opt,name=f37,proto3,oneof"`
}

func (*S3M1_F37) isS3M1_O0() {}

type S3M1_F18999 struct {
	F18999 int64 `protobuf:"varint,18999,opt,oneof"`
}

func (*S3M1_F18999) isS3M1_O0() {}

type S3M2 struct {
	F20000        *S3M3     `protobuf:"bytes,20000,opt,name=f20000,json=jf20000" json:"jf20000,omitempty"`
	F1            []int64   `protobuf:"zigzag64,1,rep,name=f1,proto3"`
	F228          []S3M4    `protobuf:"bytes,228,rep"`
	F10           *int32    `protobuf:"fixed32,10,opt,name=f10,proto3,oneof"`
	O0            isS3M2_O0 `protobuf_oneof:"o0"`
	F2047         *int32    `protobuf:"varint,2047,opt,name=f2047,proto3,oneof"`
	Canary5       uint64
	F4            uint64 `protobuf:"fixed64,4,opt,name=f4,proto3"`
	unknownFields []byte
}

type isS3M2_O0 interface{ isS3M2_O0() }

func (*S3M2) XXX_OneofWrappers() []any {
	return []any{(*S3M2_F536870910)(nil)}
}

type S3M2_F536870910 struct {
	F536870910 *S3M5 `protobuf:"bytes,536870910,opt,oneof"`
}

func (*S3M2_F536870910) isS3M2_O0() {}

type S3M3 struct {
	F138             float64          `protobuf:"fixed64,138,opt,proto3"`
	F997             float32          `protobuf:"fixed32,997,opt,name=f997,proto3"`
	F33554432        string           `protobuf:"bytes,33554432,opt,name=f33554432,json=jf33554432,proto3" json:"jf33554432,omitempty"`
	F4               float64          `protobuf:"fixed64,4,opt,name=f4,proto3"`
	F10              map[int64]uint32 `protobuf:"bytes,10,rep,name=f10,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	Canary4          uint64
	F123761269       map[int32]uint64 `protobuf:"bytes,123761269,rep,name=f123761269,proto3" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F555             *int64           `protobuf:"fixed64,555,opt"`
	XXX_unrecognized *[]byte          `json:"-"`
}

func (*S3M3) XXX_OneofWrappers() []any {
	return []any{}
}

type S3M4 struct {
	O0      isS3M4_O0 `protobuf_oneof:"o0"`
	F11     string    `protobuf:"bytes,11,opt,name=f11,json=jf11,proto3" json:"jf11,omitempty"`
	F6      int64     `protobuf:"zigzag64,6,opt,proto3"`
	F7      *int32    `protobuf:"fixed32,7,opt,name=f7,proto3,oneof"`
	Canary3 uint64
	F306    *int32  `protobuf:"zigzag32,306,req"`
	F8      int64   `protobuf:"fixed64,8,opt,name=f8,json=jf8,proto3" json:"jf8,omitempty"`
	F782    *string `protobuf:"bytes,782,req,name=f782,json=jf782,def=a,7,rep,packed,b" json:"jf782,omitempty"`
	F573    []int64 `protobuf:"varint,573,rep"`
}

type isS3M4_O0 interface{ isS3M4_O0() }

func (*S3M4) XXX_OneofWrappers() []any {
	return []any{(*S3M4_F13)(nil), (*S3M4_F206029124)(nil), (*S3M4_F18999)(nil)}
}

type S3M4_F13 struct {
	F13 uint64 `protobuf:"varint,13,opt,name=f13,proto3,oneof"`
}

func (*S3M4_F13) isS3M4_O0() {}

type S3M4_F206029124 struct {
	F206029124 uint64 `protobuf:"fixed64,206029124,opt,name=f206029124,json=jf206029124,oneof" json:"jf206029124,omitempty"`
}

func (*S3M4_F206029124) isS3M4_O0() {}

type S3M4_F18999 struct {
	F18999 int64 `protobuf:"zigzag64,18999,opt,oneof"`
}

func (*S3M4_F18999) isS3M4_O0() {}

type S3M5 struct {
	XXX_unrecognized []byte `json:"-"`
}

func (*S3M5) XXX_OneofWrappers() []any {
	return []any{}
}

type S4M1 struct {
	F10           uint64 `protobuf:"fixed64,10,opt,name=f10,proto3"`
	F1            []S4M2 `protobuf:"bytes,1,rep,name=f1,proto3"`
	Canary1       uint64
	F706          []float64       `protobuf:"fixed64,706,rep,name=f706,proto3"`
	F367          []int64         `protobuf:"varint,367,rep,name=f367,proto3"`
	F262143       *S4M4           `protobuf:"bytes,262143,opt"`
	F32           map[int32]int64 `protobuf:"bytes,32,rep,name=f32,json=jf32" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf32,omitempty"`
	unknownFields *[]byte
}

func (*S4M1) XXX_OneofWrappers() []any {
	return []any{}
}

type S4M2 struct {
	F20000        string `protobuf:"bytes,20000,opt,name=f20000,json=jf20000,proto3" json:"jf20000,omitempty"`
	Canary0       uint64
	F1003         *S4M3            `protobuf:"bytes,1003,opt,name=f1003,proto3"`
	F319          map[int32]uint64 `protobuf:"bytes,319,rep,name=f319,proto3" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F5            map[int32]int32  `protobuf:"bytes,5,rep,name=f5,json=jf5" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value" json:"jf5,omitempty"`
	F8            *int64           `protobuf:"fixed64,8,req,name=f8,json=jf8,def=42" json:"jf8,omitempty"`
	F6            uint32           `protobuf:"varint,6,opt,proto3"`
	unknownFields *[]byte
}

func (*S4M2) XXX_OneofWrappers() []any {
	return []any{}
}

type S4M3 struct {
	F10              int64     `protobuf:"varint,10,opt,name=f10,proto3"`
	O0               isS4M3_O0 `protobuf_oneof:"o0"`
	XXX_unrecognized []byte    `json:"-"`
}

type isS4M3_O0 interface{ isS4M3_O0() }

func (*S4M3) XXX_OneofWrappers() []any {
	return []any{(*S4M3_F3)(nil)}
}

type S4M3_F3 struct {
	F3 float64 `protobuf:"fixed64,3,opt,oneof"`
}

func (*S4M3_F3) isS4M3_O0() {}

type S4M4 struct {
	F7               *S4M3            `protobuf:"bytes,7,opt,name=f7,proto3"`
	O0               isS4M4_O0        `protobuf_oneof:"o0"`
	F15              *sch.E           `protobuf:"varint,15,opt"`
	F803             map[int32]sch.E  `protobuf:"bytes,803,rep,name=f803,json=jf803" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf803,omitempty"`
	F30              map[uint64]int32 `protobuf:"bytes,30,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	XXX_unrecognized []byte           `json:"-"`
}

type isS4M4_O0 interface{ isS4M4_O0() }

func (*S4M4) XXX_OneofWrappers() []any {
	return []any{(*S4M4_F327689584)(nil), (*S4M4_F802)(nil)}
}

type S4M4_F327689584 struct {
	F327689584 sch.E `protobuf:"varint,327689584,opt,name=f327689584,proto3,enum=t.E,oneof"`
}

func (*S4M4_F327689584) isS4M4_O0() {}

type S4M4_F802 struct {
	F802 *S4M3 `protobuf:"bytes,802,opt,name=f802,proto3,oneof"`
}

func (*S4M4_F802) isS4M4_O0() {}

type S5M1 struct {
	O0            isS5M1_O0 `protobuf_oneof:"o0"`
	unknownFields *[]byte
}

type isS5M1_O0 interface{ isS5M1_O0() }

func (*S5M1) XXX_OneofWrappers() []any {
	return []any{(*S5M1_F1003)(nil)}
}

type S5M1_F1003 struct {
	F1003 *S5M2 `protobuf:"bytes,1003,opt,name=f1003,proto3,oneof"`
}

func (*S5M1_F1003) isS5M1_O0() {}

type S5M2 struct {
	O0            isS5M2_O0       `protobuf_oneof:"o0"`
	F525          map[bool]uint64 `protobuf:"bytes,525,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	unknownFields *[]byte
}

type isS5M2_O0 interface{ isS5M2_O0() }

func (*S5M2) XXX_OneofWrappers() []any {
	return []any{(*S5M2_F9)(nil)}
}

type S5M2_F9 struct {
	F9 uint32 `protobuf:"varint,9,opt,oneof"`
}

func (*S5M2_F9) isS5M2_O0() {}

type S6M1 struct {
	F5      map[uint64]S6M2 `protobuf:"bytes,5,rep,name=f5,json=jf5" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value" json:"jf5,omitempty"`
	F2048   *int64          `protobuf:"varint,2048,opt,name=f2048,json=jf2048,def=42" json:"jf2048,omitempty"`
	F1005   map[int64]int64 `protobuf:"bytes,1005,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	Canary2 [3]byte
	O0      isS6M1_O0 `protobuf_oneof:"o0"`
	F1003   []int64   `protobuf:"zigzag64,1003,rep,packed,name=f1003,proto3"`
	F2047   S6M5      `protobuf:"bytes,2047,opt,name=f2047,proto3"`
}

type isS6M1_O0 interface{ isS6M1_O0() }

func (*S6M1) XXX_OneofWrappers() []any {
	return []any{(*S6M1_F821)(nil)}
}

type S6M1_F821 struct {
	F821 *S6M2 `protobuf:"bytes,821,opt,name=f821,json=jf821,oneof" json:"jf821,omitempty"`
}

func (*S6M1_F821) isS6M1_O0() {}

type S6M2 struct {
	F12           []S6M3  `protobuf:"bytes,12,rep"`
	F705          []*S6M4 `protobuf:"bytes,705,rep"`
	Canary1       [3]byte
	F31           *string `protobuf:"bytes,31,req,name=f31"`
	unknownFields []byte
}

func (*S6M2) XXX_OneofWrappers() []any {
	return []any{}
}

type S6M3 struct {
	F13           []uint64 `protobuf:"fixed64,13,rep,name=f13,proto3"`
	Canary0       [3]byte
	unknownFields *[]byte
}

func (*S6M3) XXX_OneofWrappers() []any {
	return []any{}
}

type S6M4 struct {
	F6  uint32    `protobuf:"varint,6,opt,proto3"`
	F20 float32   `protobuf:"fixed32,20,opt,name=f20,json=jf20,proto3" json:"jf20,omitempty"`
	F4  float32   `protobuf:"fixed32,4,opt,name=f4,proto3"`
	O0  isS6M4_O0 `protobuf_oneof:"o0"`
	F8  int32     `protobuf:"zigzag32,8,opt,name=f8,json=jf8,proto3" json:"jf8,omitempty"`
}

type isS6M4_O0 interface{ isS6M4_O0() }

func (*S6M4) XXX_OneofWrappers() []any {
	return []any{(*S6M4_F14)(nil)}
}

type S6M4_F14 struct {
	F14 sch.E `protobuf:"varint,14,opt,name=f14,json=jf14,enum=t.E,oneof" json:"jf14,omitempty"`
}

func (*S6M4_F14) isS6M4_O0() {}

type S6M5 struct {
	F2               int64     `protobuf:"fixed64,2,opt,name=f2,json=jf2,proto3" json:"jf2,omitempty"`
	F15              []float64 `protobuf:"fixed64,15,rep,packed"`
	F33554431        []S6M6    `protobuf:"bytes,33554431,rep,name=f33554431,proto3"`
	F20000           *sch.E    `protobuf:"varint,20000,opt,name=f20000,json=jf20000,enum=t.E,def=1" json:"jf20000,omitempty"`
	F35              []byte    `protobuf:"bytes,35,opt,name=f35,json=jf35,proto3" json:"jf35,omitempty"`
	F39              int64     `protobuf:"varint,39,opt,proto3"`
	Canary5          uint8
	F679             S6M7    `protobuf:"bytes,679,opt,name=f679,proto3"`
	F225853968       []*S6M8 `protobuf:"bytes,225853968,rep"`
	XXX_unrecognized []byte  `json:"-"`
}

func (*S6M5) XXX_OneofWrappers() []any {
	return []any{}
}

type S6M6 struct {
	O0               isS6M6_O0 `protobuf_oneof:"o0"`
	F15              *int32    `protobuf:"varint,15,req"`
	F996             uint64    `protobuf:"varint,996,opt,proto3"`
	XXX_unrecognized *[]byte   `json:"-"`
}

type isS6M6_O0 interface{ isS6M6_O0() }

func (*S6M6) XXX_OneofWrappers() []any {
	return []any{(*S6M6_F1)(nil)}
}

type S6M6_F1 struct {
	F1 int64 `protobuf:"varint,1,opt,name=f1,proto3,oneof"`
}

func (*S6M6_F1) isS6M6_O0() {}

type S6M7 struct {
	F1               []bool          `protobuf:"varint,1,rep,name=f1,proto3"`
	F23              map[int64]int32 `protobuf:"bytes,23,rep,name=f23,json=jf23" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf23,omitempty"`
	F8               bool            `protobuf:"varint,8,opt,name=f8,json=jf8,proto3" json:"jf8,omitempty"`
	F2               []uint32        `protobuf:"fixed32,2,rep,packed,name=f2,json=jf2" json:"jf2,omitempty"`
	Canary3          uint8
	F9               map[uint64]int64 `protobuf:"bytes,9,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F3               []uint32         `protobuf:"fixed32,3,rep,packed"`
	F7               *uint64          `protobuf:"varint,7,opt,name=f7,proto3,oneof"`
	F2047            *int64           `protobuf:"zigzag64,2047,opt,name=f2047,proto3,oneof"`
	F695             *uint32          `protobuf:"varint,695,req,name=f695,json=jf695,def=42" json:"jf695,omitempty"`
	F10              bool             `protobuf:"varint,10,opt,name=f10,proto3"`
	XXX_unrecognized *[]byte          `json:"-"`
}

func (*S6M7) XXX_OneofWrappers() []any {
	return []any{}
}

type S6M8 struct {
	F1               bool     `protobuf:"varint,1,opt,name=f1,proto3"`
	F19              []uint32 `protobuf:"varint,19,rep,name=f19,proto3"`
	F3               *string  `protobuf:"bytes,3,opt"`
	Canary2          uint8
	XXX_unrecognized []byte `json:"-"`
}

func (*S6M8) XXX_OneofWrappers() []any {
	return []any{}
}

type S7M1 struct {
	F130          []S7M2    `protobuf:"bytes,130,rep,name=f130,proto3"`
	O0            isS7M1_O0 `protobuf_oneof:"o0"`
	F377708450    int64     `protobuf:"zigzag64,377708450,opt,name=f377708450,json=jf377708450,proto3" json:"jf377708450,omitempty"`
	unknownFields []byte
}

type isS7M1_O0 interface{ isS7M1_O0() }

func (*S7M1) XXX_OneofWrappers() []any {
	return []any{(*S7M1_F18)(nil)}
}

type S7M1_F18 struct {
	F18 int32 `protobuf:"fixed32,18,opt,oneof"`
}

func (*S7M1_F18) isS7M1_O0() {}

type S7M2 struct {
	F793       map[int32]int64 `protobuf:"bytes,793,rep,name=f793,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	Canary0    uint8
	F1001      *uint32 `protobuf:"fixed32,1001,opt,name=f1001,json=jf1001,def=42" json:"jf1001,omitempty"`
	F145035270 S7M3    `protobuf:"bytes,145035270,opt"`
	F224       *int32  `protobuf:"zigzag32,224,opt,name=f224,json=jf224,def=42" json:"jf224,omitempty"`
	F780       []S7M4  `protobuf:"bytes,780,rep"`
}

func (*S7M2) XXX_OneofWrappers() []any {
	return []any{}
}

type S7M3 struct {
	unknownFields *[]byte
}

func (*S7M3) XXX_OneofWrappers() []any {
	return []any{}
}

type S7M4 struct {
	F1005   *int32    `protobuf:"varint,1005,opt"`
	F38     []uint32  `protobuf:"varint,38,rep,name=f38,json=jf38" json:"jf38,omitempty"`
	F10     bool      `protobuf:"varint,10,opt,name=f10,proto3"`
	O0      isS7M4_O0 `protobuf_oneof:"o0"`
	F237    int32     `protobuf:"varint,237,opt,proto3"`
	F13     sch.E     `protobuf:"varint,13,opt,name=f13,proto3,enum=t.E"`
	Canary5 string
}

type isS7M4_O0 interface{ isS7M4_O0() }

func (*S7M4) XXX_OneofWrappers() []any {
	return []any{(*S7M4_F262143)(nil)}
}

type S7M4_F262143 struct {
	F262143 bool `protobuf:"varint,262143,opt,oneof"`
}

func (*S7M4_F262143) isS7M4_O0() {}

type S8M1 struct {
	F3               int64     `protobuf:"varint,3,opt,proto3"`
	O0               isS8M1_O0 `protobuf_oneof:"o0"`
	O1               isS8M1_O1 `protobuf_oneof:"o1"`
	F2048            S8M2      `protobuf:"bytes,2048,opt,name=f2048,json=jf2048" json:"jf2048,omitempty"`
	F4               []int64   `protobuf:"fixed64,4,rep,packed,name=f4,proto3"`
	Canary4          string
	F5               map[uint32]int32 `protobuf:"bytes,5,rep,name=f5,json=jf5" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value" json:"jf5,omitempty"`
	XXX_unrecognized []byte           `json:"-"`
}

type isS8M1_O0 interface{ isS8M1_O0() }

type isS8M1_O1 interface{ isS8M1_O1() }

func (*S8M1) XXX_OneofWrappers() []any {
	return []any{(*S8M1_F10)(nil), (*S8M1_F9)(nil)}
}

type S8M1_F10 struct {
	F10 uint32 `protobuf:"varint,10,opt,name=f10,proto3,oneof"`
}

func (*S8M1_F10) isS8M1_O0() {}

type S8M1_F9 struct {
	F9 string `protobuf:"bytes,9,opt,oneof"`
}

func (*S8M1_F9) isS8M1_O1() {}

type S8M2 struct {
	F5            S8M3   `protobuf:"bytes,5,opt,name=f5,json=jf5" json:"jf5,omitempty"`
	F33           int64  `protobuf:"fixed64,33,opt,proto3"`
	F1005         []bool `protobuf:"varint,1005,rep"`
	F1002         *S8M4  `protobuf:"bytes,1002,opt"`
	Canary3       string
	F12           *float32 `protobuf:"fixed32,12,opt"`
	F11           sch.E    `protobuf:"varint,11,opt,name=f11,json=jf11,proto3,enum=t.E" json:"jf11,omitempty"`
	F2            []*S8M5  `protobuf:"bytes,2,rep,name=f2,json=jf2" json:"jf2,omitempty"`
	unknownFields []byte
}

func (*S8M2) XXX_OneofWrappers() []any {
	return []any{}
}

type S8M3 struct {
	O0               isS8M3_O0 `protobuf_oneof:"o0"`
	F9               *int32    `protobuf:"fixed32,9,opt"`
	XXX_unrecognized []byte    `json:"-"`
}

type isS8M3_O0 interface{ isS8M3_O0() }

func (*S8M3) XXX_OneofWrappers() []any {
	return []any{(*S8M3_F10)(nil)}
}

type S8M3_F10 struct {
	F10 []byte `protobuf:"bytes,10,opt,name=f10,proto3,oneof"`
}

func (*S8M3_F10) isS8M3_O0() {}

type S8M4 struct {
	O0            isS8M4_O0 `protobuf_oneof:"o0"`
	F18999        *sch.E    `protobuf:"varint,18999,req"`
	Canary1       string
	F33554432     []float32        `protobuf:"fixed32,33554432,rep,name=f33554432,json=jf33554432" json:"jf33554432,omitempty"`
	F385          []int64          `protobuf:"fixed64,385,rep,packed,name=f385,proto3"`
	F11           []int64          `protobuf:"fixed64,11,rep,packed,name=f11,json=jf11" json:"jf11,omitempty"`
	F1            map[int64][]byte `protobuf:"bytes,1,rep,name=f1,proto3" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	unknownFields *[]byte
}

type isS8M4_O0 interface{ isS8M4_O0() }

func (*S8M4) XXX_OneofWrappers() []any {
	return []any{(*S8M4_F963)(nil)}
}

type S8M4_F963 struct {
	F963 uint32 `protobuf:"fixed32,963,opt,oneof"`
}

func (*S8M4_F963) isS8M4_O0() {}

type S8M5 struct {
	F1002            int32 `protobuf:"fixed32,1002,opt,proto3"`
	Canary0          string
	F20              map[int32]uint32 `protobuf:"bytes,20,rep,name=f20,json=jf20" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf20,omitempty"`
	F1006            float32          `protobuf:"fixed32,1006,opt,name=f1006,proto3"`
	F3               *float32         `protobuf:"fixed32,3,opt"`
	F1007            *int64           `protobuf:"varint,1007,opt,name=f1007,json=jf1007,def=42" json:"jf1007,omitempty"`
	F6               *sch.E           `protobuf:"varint,6,opt"`
	F13              []sch.E          `protobuf:"varint,13,rep,name=f13,proto3,enum=t.E"`
	F33554432        *int64           `protobuf:"zigzag64,33554432,opt,name=f33554432,json=jf33554432,def=42" json:"jf33554432,omitempty"`
	Canary7          uint64
	F999             int64  `protobuf:"fixed64,999,opt,proto3"`
	XXX_unrecognized []byte `json:"-"`
}

func (*S8M5) XXX_OneofWrappers() []any {
	return []any{}
}

type S9M1 struct {
	O0               isS9M1_O0       `protobuf_oneof:"o0"`
	F1003            *S9M2           `protobuf:"bytes,1003,opt,name=f1003,proto3"`
	F5               uint64          `protobuf:"fixed64,5,opt,name=f5,json=jf5,proto3" json:"jf5,omitempty"`
	F4               map[int32]int64 `protobuf:"bytes,4,rep,name=f4,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F2047            S9M5            `protobuf:"bytes,2047,opt,name=f2047,proto3"`
	Canary6          uint64
	F39              map[int32]uint64 `protobuf:"bytes,39,rep" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F11              uint32           `protobuf:"fixed32,11,opt,name=f11,json=jf11,proto3" json:"jf11,omitempty"`
	XXX_unrecognized *[]byte          `json:"-"`
}

type isS9M1_O0 interface{ isS9M1_O0() }

func (*S9M1) XXX_OneofWrappers() []any {
	return []any{(*S9M1_F1006)(nil), (*S9M1_F27)(nil), (*S9M1_F1007)(nil)}
}

type S9M1_F1006 struct {
	F1006 int64 `protobuf:"fixed64,1006,opt,name=f1006,proto3,oneof"`
}

func (*S9M1_F1006) isS9M1_O0() {}

type S9M1_F27 struct {
	F27 []byte `protobuf:"bytes,27,opt,oneof"`
}

func (*S9M1_F27) isS9M1_O0() {}

type S9M1_F1007 struct {
	F1007 *S9M4 `protobuf:"bytes,1007,opt,name=f1007,json=jf1007,oneof" json:"jf1007,omitempty"`
}

func (*S9M1_F1007) isS9M1_O0() {}

type S9M2 struct {
	O0               isS9M2_O0 `protobuf_oneof:"o0"`
	F7               *S9M3     `protobuf:"bytes,7,opt,name=f7,proto3"`
	F37              *sch.E    `protobuf:"varint,37,opt,name=f37,proto3,enum=t.E,oneof"`
	F35              *int64    `protobuf:"varint,35,opt,name=f35,json=jf35,def=42" json:"jf35,omitempty"`
	XXX_unrecognized *[]byte   `json:"-"`
}

type isS9M2_O0 interface{ isS9M2_O0() }

func (*S9M2) XXX_OneofWrappers() []any {
	return []any{(*S9M2_F10)(nil)}
}

type S9M2_F10 struct {
	F10 uint64 `protobuf:"fixed64,10,opt,name=f10,proto3,oneof"`
}

func (*S9M2_F10) isS9M2_O0() {}

type S9M3 struct {
	F19              []sch.E `protobuf:"varint,19,rep,packed,name=f19,proto3,enum=t.E"`
	F1               int64   `protobuf:"zigzag64,1,opt,name=f1,proto3"`
	F3               float64 `protobuf:"fixed64,3,opt,proto3"`
	F998             int32   `protobuf:"fixed32,998,opt,name=f998,json=jf998,proto3" json:"jf998,omitempty"`
	F4               int64   `protobuf:"zigzag64,4,opt,name=f4,proto3"`
	Canary4          uint64
	XXX_unrecognized []byte `json:"-"`
}

func (*S9M3) XXX_OneofWrappers() []any {
	return []any{}
}

type S9M4 struct {
	O0               isS9M4_O0 `protobuf_oneof:"o0"`
	O1               isS9M4_O1 `protobuf_oneof:"o1"`
	F656             *[]byte   `protobuf:"bytes,656,opt,name=f656,json=jf656" json:"jf656,omitempty"`
	F10              []*S9M5   `protobuf:"bytes,10,rep,name=f10,proto3"`
	XXX_unrecognized *[]byte   `json:"-"`
}

type isS9M4_O0 interface{ isS9M4_O0() }

type isS9M4_O1 interface{ isS9M4_O1() }

func (*S9M4) XXX_OneofWrappers() []any {
	return []any{(*S9M4_F998)(nil), (*S9M4_F14)(nil), (*S9M4_F9)(nil), (*S9M4_F4)(nil), (*S9M4_F2047)(nil)}
}

type S9M4_F998 struct {
	F998 float64 `protobuf:"fixed64,998,opt,name=f998,json=jf998,oneof" json:"jf998,omitempty"`
}

func (*S9M4_F998) isS9M4_O0() {}

type S9M4_F14 struct {
	F14 uint32 `protobuf:"fixed32,14,opt,name=f14,json=jf14,oneof" json:"jf14,omitempty"`
}

func (*S9M4_F14) isS9M4_O0() {}

type S9M4_F9 struct {
	F9 uint64 `protobuf:"fixed64,9,opt,oneof"`
}

func (*S9M4_F9) isS9M4_O0() {}

type S9M4_F4 struct {
	F4 int32 `protobuf:"zigzag32,4,opt,name=f4,proto3,oneof"`
}

func (*S9M4_F4) isS9M4_O1() {}

type S9M4_F2047 struct {
	F2047 int32 `protobuf:"zigzag32,2047,opt,name=f2047,proto3,oneof"`
}

func (*S9M4_F2047) isS9M4_O0() {}

type S9M5 struct {
	F14              []int32 `protobuf:"zigzag32,14,rep,name=f14,json=jf14" json:"jf14,omitempty"`
	F18999           []bool  `protobuf:"varint,18999,rep"`
	F13              uint32  `protobuf:"fixed32,13,opt,name=f13,proto3"`
	Canary2          uint64
	F2047            *float64 `protobuf:"fixed64,2047,opt,name=f2047,proto3,oneof"`
	F451748860       *sch.E   `protobuf:"varint,451748860,opt,name=f451748860,proto3,enum=t.E,oneof"`
	F27              *uint32  `protobuf:"fixed32,27,req"`
	F78443885        *int64   `protobuf:"fixed64,78443885,opt,name=f78443885,json=jf78443885,def=42" json:"jf78443885,omitempty"`
	F15              *uint32  `protobuf:"varint,15,req"`
	F10              int32    `protobuf:"zigzag32,10,opt,name=f10,proto3"`
	XXX_unrecognized *[]byte  `json:"-"`
}

func (*S9M5) XXX_OneofWrappers() []any {
	return []any{}
}

type S10M1 struct {
	F250          *S10M2  `protobuf:"bytes,250,opt,name=f250,proto3"`
	F1            *uint32 `protobuf:"varint,1,opt,name=f1,proto3,oneof"`
	Canary1       uint64
	F7            uint32  `protobuf:"varint,7,opt,name=f7,proto3"`
	F262144       []int64 `protobuf:"varint,262144,rep,packed,name=f262144,proto3"`
	unknownFields *[]byte
}

func (*S10M1) XXX_OneofWrappers() []any {
	return []any{}
}

type S10M2 struct {
	F13           *uint32 `protobuf:"varint,13,opt,name=f13,proto3,oneof"`
	Canary0       uint64
	F338528586    map[int32][]byte `protobuf:"bytes,338528586,rep" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F995          []int64          `protobuf:"zigzag64,995,rep,name=f995,json=jf995" json:"jf995,omitempty"`
	F902          *S10M3           `protobuf:"bytes,902,opt,name=f902,json=jf902" json:"jf902,omitempty"`
	F432305134    *int64           `protobuf:"zigzag64,432305134,opt,name=f432305134,proto3,oneof"`
	unknownFields []byte
}

func (*S10M2) XXX_OneofWrappers() []any {
	return []any{}
}

type S10M3 struct {
	O0               isS10M3_O0 `protobuf_oneof:"o0"`
	F3               *uint32    `protobuf:"fixed32,3,opt"`
	XXX_unrecognized *[]byte    `json:"-"`
}

type isS10M3_O0 interface{ isS10M3_O0() }

func (*S10M3) XXX_OneofWrappers() []any {
	return []any{(*S10M3_F999)(nil), (*S10M3_F1003)(nil), (*S10M3_F5)(nil), (*S10M3_F14)(nil)}
}

type S10M3_F999 struct {
	F999 int32 `protobuf:"fixed32,999,opt,oneof"`
}

func (*S10M3_F999) isS10M3_O0() {}

type S10M3_F1003 struct {
	F1003 float32 `protobuf:"fixed32,1003,opt,name=f1003,proto3,oneof"`
}

func (*S10M3_F1003) isS10M3_O0() {}

type S10M3_F5 struct {
	F5 bool `protobuf:"varint,5,opt,name=f5,json=jf5,oneof" json:"jf5,omitempty"`
}

func (*S10M3_F5) isS10M3_O0() {}

type S10M3_F14 struct {
	F14 int32 `protobuf:"varint,14,opt,name=f14,json=jf14,oneof" json:"jf14,omitempty"`
}

func (*S10M3_F14) isS10M3_O0() {}

type S11M1 struct {
	F13              *int64   `protobuf:"zigzag64,13,opt,name=f13,proto3,oneof"`
	F9               float64  `protobuf:"fixed64,9,opt,proto3"`
	F1               [][]byte `protobuf:"bytes,1,rep,name=f1,proto3"`
	XXX_unrecognized []byte   `json:"-"`
}

func (*S11M1) XXX_OneofWrappers() []any {
	return []any{}
}

type S12M1 struct {
	F15              *int32  `protobuf:"zigzag32,15,opt"`
	F536870910       int64   `protobuf:"fixed64,536870910,opt,proto3"`
	XXX_unrecognized *[]byte `json:"-"`
}

func (*S12M1) XXX_OneofWrappers() []any {
	return []any{}
}

type S13M1 struct {
	F10           uint32 `protobuf:"varint,10,opt,name=f10,proto3"`
	unknownFields *[]byte
}

func (*S13M1) XXX_OneofWrappers() []any {
	return []any{}
}

type S14M1 struct {
	F4     uint64     `protobuf:"varint,4,opt,name=f4,proto3"`
	F3     uint64     `protobuf:"fixed64,3,opt,proto3"`
	O0     isS14M1_O0 `protobuf_oneof:"o0"`
	F18999 uint64     `protobuf:"varint,18999,opt,proto3"`
	F15    int32      `protobuf:"fixed32,15,opt,proto3"`
}

type isS14M1_O0 interface{ isS14M1_O0() }

func (*S14M1) XXX_OneofWrappers() []any {
	return []any{(*S14M1_F843)(nil)}
}

type S14M1_F843 struct {
	F843 int64 `protobuf:"varint,843,opt,oneof"`
}

func (*S14M1_F843) isS14M1_O0() {}

type S15M1 struct {
	F383          *int32          `protobuf:"varint,383,opt,name=f383,json=jf383,def=42" json:"jf383,omitempty"`
	F12           map[int32]int64 `protobuf:"bytes,12,rep" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	Canary1       [3]byte
	F903          []byte `protobuf:"bytes,903,opt"`
	unknownFields *[]byte
}

func (*S15M1) XXX_OneofWrappers() []any {
	return []any{}
}

type S16M1 struct {
	F2               map[int64]string `protobuf:"bytes,2,rep,name=f2,json=jf2" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value" json:"jf2,omitempty"`
	Canary0          [3]byte
	F584             *float64   `protobuf:"fixed64,584,opt,name=f584,json=jf584,def=42" json:"jf584,omitempty"`
	F11              *uint32    `protobuf:"varint,11,opt,name=f11,json=jf11,def=42" json:"jf11,omitempty"`
	O0               isS16M1_O0 `protobuf_oneof:"o0"`
	F12              *float32   `protobuf:"fixed32,12,opt"`
	F7               S16M3      `protobuf:"bytes,7,opt,name=f7,proto3"`
	F6               float32    `protobuf:"fixed32,6,opt,proto3"`
	F1004            *S16M4     `protobuf:"bytes,1004,opt,name=f1004,json=jf1004" json:"jf1004,omitempty"`
	Canary7          uint8
	F5               *float32 `protobuf:"fixed32,5,opt,name=f5,json=jf5,def=42" json:"jf5,omitempty"`
	XXX_unrecognized []byte   `json:"-"`
}

type isS16M1_O0 interface{ isS16M1_O0() }

func (*S16M1) XXX_OneofWrappers() []any {
	return []any{(*S16M1_F1000)(nil), (*S16M1_F262143)(nil)}
}

type S16M1_F1000 struct {
	F1000 *S16M2 `protobuf:"bytes,1000,opt,name=f1000,proto3,oneof"`
}

func (*S16M1_F1000) isS16M1_O0() {}

type S16M1_F262143 struct {
	F262143 uint64 `protobuf:"fixed64,262143,opt,oneof"`
}

func (*S16M1_F262143) isS16M1_O0() {}

type S16M2 struct {
	F15              []byte           `protobuf:"bytes,15,opt"`
	F16              map[uint32]sch.E `protobuf:"bytes,16,rep,name=f16,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	XXX_unrecognized []byte           `json:"-"`
}

func (*S16M2) XXX_OneofWrappers() []any {
	return []any{}
}

type S16M3 struct {
	F8               map[uint64]string `protobuf:"bytes,8,rep,name=f8,json=jf8" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value" json:"jf8,omitempty"`
	XXX_unrecognized []byte            `json:"-"`
}

func (*S16M3) XXX_OneofWrappers() []any {
	return []any{}
}

type S16M4 struct {
	unknownFields []byte
}

func (*S16M4) XXX_OneofWrappers() []any {
	return []any{}
}

type S17M1 struct {
	F234             []int32    `protobuf:"zigzag32,234,rep,packed"`
	F1               *S17M2     `protobuf:"bytes,1,opt,name=f1,proto3"`
	O0               isS17M1_O0 `protobuf_oneof:"o0"`
	F943             *int32     `protobuf:"fixed32,943,opt,name=f943,proto3,oneof"`
	Canary3          uint8
	F666             *uint32 `protobuf:"varint,666,opt"`
	F2               int64   `protobuf:"fixed64,2,opt,name=f2,json=jf2,proto3" json:"jf2,omitempty"`
	F3               []S17M6 `protobuf:"bytes,3,rep"`
	XXX_unrecognized []byte  `json:"-"`
}

type isS17M1_O0 interface{ isS17M1_O0() }

func (*S17M1) XXX_OneofWrappers() []any {
	return []any{(*S17M1_F20000)(nil)}
}

type S17M1_F20000 struct {
	F20000 uint32 `protobuf:"fixed32,20000,opt,name=f20000,json=jf20000,oneof" json:"jf20000,omitempty"`
}

func (*S17M1_F20000) isS17M1_O0() {}

type S17M2 struct {
	F536870911       map[int64]int32 `protobuf:"bytes,536870911,rep,name=f536870911,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	O0               isS17M2_O0      `protobuf_oneof:"o0"`
	F1               *int32          `protobuf:"fixed32,1,opt,name=f1,proto3,oneof"`
	Canary2          uint8
	F2               S17M3  `protobuf:"bytes,2,opt,name=f2,json=jf2" json:"jf2,omitempty"`
	F187             S17M4  `protobuf:"bytes,187,opt,name=f187,proto3"`
	F30              *S17M5 `protobuf:"bytes,30,opt"`
	F4               *S17M4 `protobuf:"bytes,4,opt,name=f4,proto3"`
	XXX_unrecognized []byte `json:"-"`
}

type isS17M2_O0 interface{ isS17M2_O0() }

func (*S17M2) XXX_OneofWrappers() []any {
	return []any{(*S17M2_F3)(nil)}
}

type S17M2_F3 struct {
	F3 sch.E `protobuf:"varint,3,opt,oneof"`
}

func (*S17M2_F3) isS17M2_O0() {}

type S17M3 struct {
	F9         int32 `protobuf:"fixed32,9,opt,proto3"`
	F10        int32 `protobuf:"zigzag32,10,opt,name=f10,proto3"`
	Canary1    uint8
	F996       *int32  `protobuf:"fixed32,996,opt"`
	F536870910 uint32  `protobuf:"fixed32,536870910,opt,proto3"`
	F999       uint64  `protobuf:"fixed64,999,opt,proto3"`
	F567       *uint64 `protobuf:"fixed64,567,opt"`
	F28        *bool   `protobuf:"varint,28,opt,name=f28,proto3,oneof"`
	F11        *int32  `protobuf:"zigzag32,11,opt,name=f11,json=jf11,def=42" json:"jf11,omitempty"`
}

func (*S17M3) XXX_OneofWrappers() []any {
	return []any{}
}

type S17M4 struct {
	F860    string `protobuf:"bytes,860,opt,name=f860,json=jf860,proto3" json:"jf860,omitempty"`
	Canary0 uint8
	O0      isS17M4_O0 `protobuf_oneof:"o0"`
	F903    int64      `protobuf:"zigzag64,903,opt,proto3"`
	F262144 *int32     `protobuf:"varint,262144,opt,name=f262144,proto3,oneof"`
}

type isS17M4_O0 interface{ isS17M4_O0() }

func (*S17M4) XXX_OneofWrappers() []any {
	return []any{(*S17M4_F314)(nil)}
}

type S17M4_F314 struct {
	F314 float64 `protobuf:"fixed64,314,opt,name=f314,json=jf314,oneof" json:"jf314,omitempty"`
}

func (*S17M4_F314) isS17M4_O0() {}

type S17M5 struct {
	O0            isS17M5_O0 `protobuf_oneof:"o0"`
	unknownFields []byte
}

type isS17M5_O0 interface{ isS17M5_O0() }

func (*S17M5) XXX_OneofWrappers() []any {
	return []any{(*S17M5_F664)(nil)}
}

type S17M5_F664 struct {
	F664 int32 `protobuf:"varint,664,opt,name=f664,proto3,oneof"`
}

func (*S17M5_F664) isS17M5_O0() {}

type S17M6 struct {
	F54              []int64           `protobuf:"zigzag64,54,rep"`
	F4               map[uint32]*S17M7 `protobuf:"bytes,4,rep,name=f4,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F9               *uint64           `protobuf:"fixed64,9,req"`
	F11              *uint32           `protobuf:"fixed32,11,opt,name=f11,json=jf11,def=42" json:"jf11,omitempty"`
	XXX_unrecognized []byte            `json:"-"`
}

func (*S17M6) XXX_OneofWrappers() []any {
	return []any{}
}

type S17M7 struct {
	O0               isS17M7_O0       `protobuf_oneof:"o0"`
	F6               *int32           `protobuf:"zigzag32,6,opt"`
	F998             map[int32]uint32 `protobuf:"bytes,998,rep,name=f998,json=jf998" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value" json:"jf998,omitempty"`
	F1000            map[int64]int32  `protobuf:"bytes,1000,rep,name=f1000,proto3" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F279             uint32           `protobuf:"varint,279,opt,proto3"`
	Canary4          string
	XXX_unrecognized []byte `json:"-"`
}

type isS17M7_O0 interface{ isS17M7_O0() }

func (*S17M7) XXX_OneofWrappers() []any {
	return []any{(*S17M7_F2)(nil)}
}

type S17M7_F2 struct {
	F2 sch.E `protobuf:"varint,2,opt,name=f2,json=jf2,enum=t.E,oneof" json:"jf2,omitempty"`
}

func (*S17M7_F2) isS17M7_O0() {}

type S18M1 struct {
	O0            isS18M1_O0        `protobuf_oneof:"o0"`
	F60           map[int64]*S18M2  `protobuf:"bytes,60,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F134          *S18M3            `protobuf:"bytes,134,opt,name=f134,json=jf134" json:"jf134,omitempty"`
	O1            isS18M1_O1        `protobuf_oneof:"o1"`
	F7            map[int64]float32 `protobuf:"bytes,7,rep,name=f7,proto3" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F12           *uint32           `protobuf:"varint,12,opt"`
	F1            map[int64][]byte  `protobuf:"bytes,1,rep,name=f1,proto3" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F231          *S18M6            `protobuf:"bytes,231,opt"`
	unknownFields []byte
}

type isS18M1_O0 interface{ isS18M1_O0() }

type isS18M1_O1 interface{ isS18M1_O1() }

func (*S18M1) XXX_OneofWrappers() []any {
	return []any{(*S18M1_F8)(nil), (*S18M1_F13001285)(nil), (*S18M1_F536870911)(nil)}
}

type S18M1_F8 struct {
	F8 float64 `protobuf:"fixed64,8,opt,name=f8,json=jf8,oneof" json:"jf8,omitempty"`
}

func (*S18M1_F8) isS18M1_O0() {}

type S18M1_F13001285 struct {
	F13001285 *S18M4 `protobuf:"bytes,13001285,opt,name=f13001285,json=jf13001285,oneof" json:"jf13001285,omitempty"`
}

func (*S18M1_F13001285) isS18M1_O1() {}

type S18M1_F536870911 struct {
	F536870911 []byte `protobuf:"bytes,536870911,opt,name=f536870911,proto3,oneof"`
}

func (*S18M1_F536870911) isS18M1_O1() {}

type S18M2 struct {
	F439771252       map[uint32]uint64 `protobuf:"bytes,439771252,rep,name=f439771252,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F9               []float64         `protobuf:"fixed64,9,rep"`
	O0               isS18M2_O0        `protobuf_oneof:"o0"`
	O1               isS18M2_O1        `protobuf_oneof:"o1"`
	XXX_unrecognized []byte            `json:"-"`
}

type isS18M2_O0 interface{ isS18M2_O0() }

type isS18M2_O1 interface{ isS18M2_O1() }

func (*S18M2) XXX_OneofWrappers() []any {
	return []any{(*S18M2_F1)(nil), (*S18M2_F995)(nil)}
}

type S18M2_F1 struct {
	F1 float64 `protobuf:"fixed64,1,opt,name=f1,proto3,oneof"`
}

func (*S18M2_F1) isS18M2_O0() {}

type S18M2_F995 struct {
	F995 []byte `protobuf:"bytes,995,opt,name=f995,json=jf995,oneof" json:"jf995,omitempty"`
}

func (*S18M2_F995) isS18M2_O1() {}

type S18M3 struct {
	O0            isS18M3_O0 `protobuf_oneof:"o0"`
	F2047         *float32   `protobuf:"fixed32,2047,req,name=f2047"`
	Canary1       string
	F1004         []int32 `protobuf:"varint,1004,rep,packed,name=f1004,json=jf1004" json:"jf1004,omitempty"`
	F997          []int32 `protobuf:"zigzag32,997,rep,packed,name=f997,proto3"`
	F9            []int32 `protobuf:"varint,9,rep"`
	F3            int32   `protobuf:"zigzag32,3,opt,proto3"`
	F1003         *uint64 `protobuf:"varint,1003,opt,name=f1003,proto3,oneof"`
	unknownFields *[]byte
}

type isS18M3_O0 interface{ isS18M3_O0() }

func (*S18M3) XXX_OneofWrappers() []any {
	return []any{(*S18M3_F13)(nil)}
}

type S18M3_F13 struct {
	F13 float64 `protobuf:"fixed64,13,opt,name=f13,proto3,oneof"`
}

func (*S18M3_F13) isS18M3_O0() {}

type S18M4 struct {
	F40           *uint64 `protobuf:"fixed64,40,opt,name=f40,proto3,oneof"`
	Canary0       string
	F20000        []string `protobuf:"bytes,20000,rep,name=f20000,json=jf20000" json:"jf20000,omitempty"`
	F13           []byte   `protobuf:"bytes,13,opt,name=f13,proto3"`
	F14           *bool    `protobuf:"varint,14,opt,name=f14,json=jf14,def=1" json:"jf14,omitempty"`
	F15           []sch.E  `protobuf:"varint,15,rep"`
	F12           *S18M5   `protobuf:"bytes,12,opt"`
	unknownFields []byte
}

func (*S18M4) XXX_OneofWrappers() []any {
	return []any{}
}

type S18M5 struct {
	F11           bool      `protobuf:"varint,11,opt,name=f11,json=jf11,proto3" json:"jf11,omitempty"`
	F574          []float64 `protobuf:"fixed64,574,rep,name=f574,proto3"`
	F13           *uint32   `protobuf:"fixed32,13,opt,name=f13,proto3,oneof"`
	F3            []int64   `protobuf:"fixed64,3,rep"`
	F9            int64     `protobuf:"zigzag64,9,opt,proto3"`
	F38           uint64    `protobuf:"varint,38,opt,name=f38,json=jf38,proto3" json:"jf38,omitempty"`
	F119485057    *uint64   `protobuf:"varint,119485057,opt,name=f119485057,proto3,oneof"`
	Canary6       uint64
	unknownFields *[]byte
}

func (*S18M5) XXX_OneofWrappers() []any {
	return []any{}
}

type S18M6 struct {
	O0            isS18M6_O0 `protobuf_oneof:"o0"`
	O1            isS18M6_O1 `protobuf_oneof:"o1"`
	unknownFields []byte
}

type isS18M6_O0 interface{ isS18M6_O0() }

type isS18M6_O1 interface{ isS18M6_O1() }

func (*S18M6) XXX_OneofWrappers() []any {
	return []any{(*S18M6_F40)(nil), (*S18M6_F13)(nil), (*S18M6_F735)(nil)}
}

type S18M6_F40 struct {
	F40 uint64 `protobuf:"fixed64,40,opt,name=f40,proto3,oneof"`
}

func (*S18M6_F40) isS18M6_O0() {}

type S18M6_F13 struct {
	F13 *S18M7 `protobuf:"bytes,13,opt,name=f13,proto3,oneof"`
}

func (*S18M6_F13) isS18M6_O1() {}

type S18M6_F735 struct {
	F735 *S18M2 `protobuf:"bytes,735,opt,oneof"`
}

func (*S18M6_F735) isS18M6_O1() {}

type S18M7 struct {
	F5               *bool             `protobuf:"varint,5,opt,name=f5,json=jf5,def=1" json:"jf5,omitempty"`
	F125             float64           `protobuf:"fixed64,125,opt,name=f125,json=jf125,proto3" json:"jf125,omitempty"`
	O0               isS18M7_O0        `protobuf_oneof:"o0"`
	F2               map[int32]float64 `protobuf:"bytes,2,rep,name=f2,json=jf2" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value" json:"jf2,omitempty"`
	F10              []uint32          `protobuf:"varint,10,rep,name=f10,proto3"`
	Canary4          uint64
	XXX_unrecognized []byte `json:"-"`
}

type isS18M7_O0 interface{ isS18M7_O0() }

func (*S18M7) XXX_OneofWrappers() []any {
	return []any{(*S18M7_F4)(nil)}
}

type S18M7_F4 struct {
	F4 bool `protobuf:"varint,4,opt,name=f4,proto3,oneof"`
}

func (*S18M7_F4) isS18M7_O0() {}

type S19M1 struct {
	F573          []uint64          `protobuf:"varint,573,rep"`
	F517791607    map[uint64]*S19M2 `protobuf:"bytes,517791607,rep,name=f517791607,proto3" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F1001         []uint64          `protobuf:"varint,1001,rep,packed,name=f1001,json=jf1001" json:"jf1001,omitempty"`
	F285          map[bool]uint32   `protobuf:"bytes,285,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	Canary3       uint64
	unknownFields []byte
}

func (*S19M1) XXX_OneofWrappers() []any {
	return []any{}
}

type S19M2 struct {
	F997    int64            `protobuf:"fixed64,997,opt,name=f997,proto3"`
	F1      map[int64]*S19M3 `protobuf:"bytes,1,rep,name=f1,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F35     uint64           `protobuf:"fixed64,35,opt,name=f35,json=jf35,proto3" json:"jf35,omitempty"`
	Canary2 uint64
	F262143 []uint32         `protobuf:"fixed32,262143,rep"`
	F117    uint64           `protobuf:"varint,117,opt,proto3"`
	O0      isS19M2_O0       `protobuf_oneof:"o0"`
	F4      map[string]sch.E `protobuf:"bytes,4,rep,name=f4,proto3" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

type isS19M2_O0 interface{ isS19M2_O0() }

func (*S19M2) XXX_OneofWrappers() []any {
	return []any{(*S19M2_F11)(nil)}
}

type S19M2_F11 struct {
	F11 *S19M4 `protobuf:"bytes,11,opt,name=f11,json=jf11,oneof" json:"jf11,omitempty"`
}

func (*S19M2_F11) isS19M2_O0() {}

type S19M3 struct {
	F10           *float64 `protobuf:"fixed64,10,req,name=f10"`
	F249951882    *int64   `protobuf:"fixed64,249951882,opt"`
	Canary1       uint64
	F1004         *uint64 `protobuf:"fixed64,1004,opt,name=f1004,json=jf1004,def=42" json:"jf1004,omitempty"`
	unknownFields []byte
}

func (*S19M3) XXX_OneofWrappers() []any {
	return []any{}
}

type S19M4 struct {
	F11           []uint64 `protobuf:"fixed64,11,rep,packed,name=f11,json=jf11" json:"jf11,omitempty"`
	Canary0       uint64
	F14           *string `protobuf:"bytes,14,opt,name=f14,json=jf14,def=a,7,rep,packed,b" json:"jf14,omitempty"`
	unknownFields *[]byte
}

func (*S19M4) XXX_OneofWrappers() []any {
	return []any{}
}

type S20M1 struct {
	F11        *int64    `protobuf:"varint,11,opt,name=f11,json=jf11,def=42" json:"jf11,omitempty"`
	F18999     int32     `protobuf:"fixed32,18999,opt,proto3"`
	F536870910 *string   `protobuf:"bytes,536870910,opt"`
	F262144    []float64 `protobuf:"fixed64,262144,rep,name=f262144,proto3"`
	F1002      []byte    `protobuf:"bytes,1002,opt,proto3"`
	F373       int64     `protobuf:"varint,373,opt,name=f373,proto3"`
	F997       []*S20M2  `protobuf:"bytes,997,rep,name=f997,proto3"`
	Canary6    [3]byte
	F996       *S20M4            `protobuf:"bytes,996,opt"`
	F30        map[uint32]uint64 `protobuf:"bytes,30,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*S20M1) XXX_OneofWrappers() []any {
	return []any{}
}

type S20M2 struct {
	F14              *int64            `protobuf:"varint,14,req,name=f14,json=jf14,def=42" json:"jf14,omitempty"`
	F206974444       uint32            `protobuf:"fixed32,206974444,opt,name=f206974444,proto3"`
	F27              *float64          `protobuf:"fixed64,27,opt"`
	F11              map[uint32]uint64 `protobuf:"bytes,11,rep,name=f11,json=jf11" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf11,omitempty"`
	F822             *S20M3            `protobuf:"bytes,822,opt"`
	F2               map[int64]uint64  `protobuf:"bytes,2,rep,name=f2,json=jf2" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value" json:"jf2,omitempty"`
	Canary5          [3]byte
	F459             []S20M4 `protobuf:"bytes,459,rep"`
	F4               []int64 `protobuf:"varint,4,rep,packed,name=f4,proto3"`
	F6               int64   `protobuf:"fixed64,6,opt,proto3"`
	F20000           *int64  `protobuf:"fixed64,20000,req,name=f20000,json=jf20000,def=42" json:"jf20000,omitempty"`
	XXX_unrecognized []byte  `json:"-"`
}

func (*S20M2) XXX_OneofWrappers() []any {
	return []any{}
}

type S20M3 struct {
	F38           []int32   `protobuf:"fixed32,38,rep,name=f38,json=jf38" json:"jf38,omitempty"`
	F27           *int64    `protobuf:"fixed64,27,opt"`
	F262143       float64   `protobuf:"fixed64,262143,opt,proto3"`
	F20000        []byte    `protobuf:"bytes,20000,opt,name=f20000,json=jf20000,proto3" json:"jf20000,omitempty"`
	F12           []float32 `protobuf:"fixed32,12,rep,packed"`
	Canary4       [3]byte
	unknownFields []byte
}

func (*S20M3) XXX_OneofWrappers() []any {
	return []any{}
}

type S20M4 struct {
	F536870911    *uint32  `protobuf:"varint,536870911,opt,name=f536870911,proto3,oneof"`
	F21           *uint64  `protobuf:"varint,21,opt"`
	F1            int64    `protobuf:"zigzag64,1,opt,name=f1,proto3"`
	F180585969    *float32 `protobuf:"fixed32,180585969,opt"`
	Canary3       [3]byte
	O0            isS20M4_O0       `protobuf_oneof:"o0"`
	F2            int32            `protobuf:"fixed32,2,opt,name=f2,json=jf2,proto3" json:"jf2,omitempty"`
	F9            int32            `protobuf:"zigzag32,9,opt,proto3"`
	F22           map[int64]uint64 `protobuf:"bytes,22,rep,name=f22,proto3" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	unknownFields *[]byte
}

type isS20M4_O0 interface{ isS20M4_O0() }

func (*S20M4) XXX_OneofWrappers() []any {
	return []any{(*S20M4_F837)(nil), (*S20M4_F7)(nil)}
}

type S20M4_F837 struct {
	F837 int32 `protobuf:"zigzag32,837,opt,oneof"`
}

func (*S20M4_F837) isS20M4_O0() {}

type S20M4_F7 struct {
	F7 int32 `protobuf:"zigzag32,7,opt,name=f7,proto3,oneof"`
}

func (*S20M4_F7) isS20M4_O0() {}

type S21M1 struct {
	F253617011    int32    `protobuf:"zigzag32,253617011,opt,name=f253617011,json=jf253617011,proto3" json:"jf253617011,omitempty"`
	F439665010    *int32   `protobuf:"fixed32,439665010,opt,name=f439665010,proto3,oneof"`
	F18999        []*S21M2 `protobuf:"bytes,18999,rep"`
	Canary2       [3]byte
	F10           map[int32]float64 `protobuf:"bytes,10,rep,name=f10,proto3" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F262144       uint32            `protobuf:"fixed32,262144,opt,name=f262144,proto3"`
	F13           int64             `protobuf:"zigzag64,13,opt,name=f13,proto3"`
	F3            []S21M6           `protobuf:"bytes,3,rep"`
	F7            S21M8             `protobuf:"bytes,7,opt,name=f7,proto3"`
	unknownFields *[]byte
}

func (*S21M1) XXX_OneofWrappers() []any {
	return []any{}
}

type S21M2 struct {
	O0            isS21M2_O0 `protobuf_oneof:"o0"`
	F11           *int64     `protobuf:"fixed64,11,req,name=f11,json=jf11,def=42" json:"jf11,omitempty"`
	Canary1       [3]byte
	F10           *int64    `protobuf:"fixed64,10,opt,name=f10,proto3,oneof"`
	F13           int64     `protobuf:"zigzag64,13,opt,name=f13,proto3"`
	F12           []*S21M3  `protobuf:"bytes,12,rep"`
	F14           []*S21M4  `protobuf:"bytes,14,rep,name=f14,json=jf14" json:"jf14,omitempty"`
	F4            []float32 `protobuf:"fixed32,4,rep,name=f4,proto3"`
	F15           *uint32   `protobuf:"varint,15,opt"`
	unknownFields []byte
}

type isS21M2_O0 interface{ isS21M2_O0() }

func (*S21M2) XXX_OneofWrappers() []any {
	return []any{(*S21M2_F507)(nil), (*S21M2_F20000)(nil), (*S21M2_F865)(nil)}
}

type S21M2_F507 struct {
	F507 int64 `protobuf:"varint,507,opt,oneof"`
}

func (*S21M2_F507) isS21M2_O0() {}

type S21M2_F20000 struct {
	F20000 uint64 `protobuf:"varint,20000,opt,name=f20000,json=jf20000,oneof" json:"jf20000,omitempty"`
}

func (*S21M2_F20000) isS21M2_O0() {}

type S21M2_F865 struct {
	F865 *S21M5 `protobuf:"bytes,865,opt,name=f865,proto3,oneof"`
}

func (*S21M2_F865) isS21M2_O0() {}

type S21M3 struct {
	F913          map[uint32]sch.E `protobuf:"bytes,913,rep,name=f913,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	Canary0       [3]byte
	F19383444     map[int64]bool    `protobuf:"bytes,19383444,rep" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F1002         *int64            `protobuf:"zigzag64,1002,req"`
	F956          uint32            `protobuf:"varint,956,opt,name=f956,json=jf956,proto3" json:"jf956,omitempty"`
	F367          []byte            `protobuf:"bytes,367,opt,name=f367,proto3"`
	F31           map[uint64]uint32 `protobuf:"bytes,31,rep,name=f31,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	unknownFields []byte
}

func (*S21M3) XXX_OneofWrappers() []any {
	return []any{}
}

type S21M4 struct {
	F12              int64   `protobuf:"zigzag64,12,opt,proto3"`
	F29              *int64  `protobuf:"zigzag64,29,opt,name=f29,json=jf29,def=42" json:"jf29,omitempty"`
	XXX_unrecognized *[]byte `json:"-"`
}

func (*S21M4) XXX_OneofWrappers() []any {
	return []any{}
}

type S21M5 struct {
	F262144          [][]byte   `protobuf:"bytes,262144,rep,name=f262144,proto3"`
	F15              []int32    `protobuf:"fixed32,15,rep,packed"`
	O0               isS21M5_O0 `protobuf_oneof:"o0"`
	F142             *int32     `protobuf:"varint,142,opt,name=f142,proto3,oneof"`
	F149             []int64    `protobuf:"varint,149,rep,packed,name=f149,json=jf149" json:"jf149,omitempty"`
	F1005            *sch.E     `protobuf:"varint,1005,opt"`
	F29              *string    `protobuf:"bytes,29,opt,name=f29,json=jf29,def=a,7,rep,packed,b" json:"jf29,omitempty"`
	XXX_unrecognized []byte     `json:"-"`
}

type isS21M5_O0 interface{ isS21M5_O0() }

func (*S21M5) XXX_OneofWrappers() []any {
	return []any{(*S21M5_F8)(nil), (*S21M5_F700)(nil), (*S21M5_F354)(nil)}
}

type S21M5_F8 struct {
	F8 int64 `protobuf:"varint,8,opt,name=f8,json=jf8,oneof" json:"jf8,omitempty"`
}

func (*S21M5_F8) isS21M5_O0() {}

type S21M5_F700 struct {
	F700 uint64 `protobuf:"fixed64,700,opt,name=f700,proto3,oneof"`
}

func (*S21M5_F700) isS21M5_O0() {}

type S21M5_F354 struct {
	F354 uint32 `protobuf:"fixed32,354,opt,oneof"`
}

func (*S21M5_F354) isS21M5_O0() {}

type S21M6 struct {
	F11              []S21M7 `protobuf:"bytes,11,rep,name=f11,json=jf11" json:"jf11,omitempty"`
	XXX_unrecognized *[]byte `json:"-"`
}

func (*S21M6) XXX_OneofWrappers() []any {
	return []any{}
}

type S21M7 struct {
	F4               []byte           `protobuf:"bytes,4,opt,name=f4,proto3,oneof"`
	F5               int32            `protobuf:"fixed32,5,opt,name=f5,json=jf5,proto3" json:"jf5,omitempty"`
	F6               map[uint64]sch.E `protobuf:"bytes,6,rep" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F7               int64            `protobuf:"fixed64,7,opt,name=f7,proto3"`
	Canary3          uint8
	F2047            [][]byte           `protobuf:"bytes,2047,rep,name=f2047,proto3"`
	F1004            string             `protobuf:"bytes,1004,opt,name=f1004,json=jf1004,proto3" json:"jf1004,omitempty"`
	F526336911       map[uint32]float32 `protobuf:"bytes,526336911,rep" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	XXX_unrecognized []byte             `json:"-"`
}

func (*S21M7) XXX_OneofWrappers() []any {
	return []any{}
}

type S21M8 struct {
	F231191318    []string `protobuf:"bytes,231191318,rep,name=f231191318,json=jf231191318" json:"jf231191318,omitempty"`
	F1004         []int64  `protobuf:"fixed64,1004,rep,packed,name=f1004,json=jf1004" json:"jf1004,omitempty"`
	unknownFields *[]byte
}

func (*S21M8) XXX_OneofWrappers() []any {
	return []any{}
}

type S22M1 struct {
	F11 []S22M2 `protobuf:"bytes,11,rep,name=f11,json=jf11" json:"jf11,omitempty"`
}

func (*S22M1) XXX_OneofWrappers() []any {
	return []any{}
}

type S22M2 struct {
	F39     map[uint64]float32 `protobuf:"bytes,39,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	Canary0 uint8
	F6      []uint32 `protobuf:"varint,6,rep,packed"`
}

func (*S22M2) XXX_OneofWrappers() []any {
	return []any{}
}

type S23M1 struct {
	F14 *S23M2  `protobuf:"bytes,14,opt,name=f14,json=jf14" json:"jf14,omitempty"`
	F15 []S23M3 `protobuf:"bytes,15,rep"`
}

func (*S23M1) XXX_OneofWrappers() []any {
	return []any{}
}

type S23M2 struct {
	F77           map[uint64]int64 `protobuf:"bytes,77,rep,name=f77,json=jf77" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value" json:"jf77,omitempty"`
	unknownFields []byte
}

func (*S23M2) XXX_OneofWrappers() []any {
	return []any{}
}

type S23M3 struct {
	F2            *int32   `protobuf:"fixed32,2,opt,name=f2,json=jf2,def=42" json:"jf2,omitempty"`
	F26           []uint64 `protobuf:"fixed64,26,rep,name=f26,json=jf26" json:"jf26,omitempty"`
	F652          S23M4    `protobuf:"bytes,652,opt,name=f652,proto3"`
	F33554432     *float64 `protobuf:"fixed64,33554432,opt,name=f33554432,json=jf33554432,def=42" json:"jf33554432,omitempty"`
	F3            *int64   `protobuf:"varint,3,opt"`
	Canary4       string
	F8            map[uint64]bool `protobuf:"bytes,8,rep,name=f8,json=jf8" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf8,omitempty"`
	F6            *uint64         `protobuf:"varint,6,opt"`
	F4            int64           `protobuf:"fixed64,4,opt,name=f4,proto3"`
	unknownFields *[]byte
}

func (*S23M3) XXX_OneofWrappers() []any {
	return []any{}
}

type S23M4 struct {
	F404      *int64   `protobuf:"zigzag64,404,opt,name=f404,json=jf404,def=42" json:"jf404,omitempty"`
	F77046152 []uint32 `protobuf:"varint,77046152,rep,name=f77046152,json=jf77046152" json:"jf77046152,omitempty"`
	F18       *int64   `protobuf:"fixed64,18,opt"`
	F997      uint32   `protobuf:"varint,997,opt,name=f997,proto3"`
	Canary3   string
	F663      *uint32 `protobuf:"fixed32,663,opt"`
	F14       []byte  `protobuf:"bytes,14,opt,name=f14,json=jf14,proto3" json:"jf14,omitempty"`
}

func (*S23M4) XXX_OneofWrappers() []any {
	return []any{}
}

type S24M1 struct {
	F113             map[int64]string `protobuf:"bytes,113,rep,name=f113,json=jf113" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value" json:"jf113,omitempty"`
	F197             *S24M2           `protobuf:"bytes,197,opt,name=f197,json=jf197" json:"jf197,omitempty"`
	F5               *S24M4           `protobuf:"bytes,5,opt,name=f5,json=jf5" json:"jf5,omitempty"`
	Canary2          string
	XXX_unrecognized *[]byte `json:"-"`
}

func (*S24M1) XXX_OneofWrappers() []any {
	return []any{}
}

type S24M2 struct {
	F999             S24M3 `protobuf:"bytes,999,opt"`
	F388             *bool `protobuf:"varint,388,opt,name=f388,proto3,oneof"`
	Canary1          string
	F678             uint64  `protobuf:"varint,678,opt,proto3"`
	XXX_unrecognized *[]byte `json:"-"`
}

func (*S24M2) XXX_OneofWrappers() []any {
	return []any{}
}

type S24M3 struct {
	F683             *int64 `protobuf:"fixed64,683,opt,name=f683,json=jf683,def=42" json:"jf683,omitempty"`
	Canary0          string
	F581             []sch.E           `protobuf:"varint,581,rep,name=f581,json=jf581,enum=t.E" json:"jf581,omitempty"`
	F1               map[int32]string  `protobuf:"bytes,1,rep,name=f1,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F1005            *uint32           `protobuf:"fixed32,1005,opt"`
	F14              map[uint64]uint32 `protobuf:"bytes,14,rep,name=f14,json=jf14" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf14,omitempty"`
	F8               *uint32           `protobuf:"fixed32,8,opt,name=f8,json=jf8,def=42" json:"jf8,omitempty"`
	F5               []int64           `protobuf:"zigzag64,5,rep,packed,name=f5,json=jf5" json:"jf5,omitempty"`
	O0               isS24M3_O0        `protobuf_oneof:"o0"`
	XXX_unrecognized *[]byte           `json:"-"`
}

type isS24M3_O0 interface{ isS24M3_O0() }

func (*S24M3) XXX_OneofWrappers() []any {
	return []any{(*S24M3_F482)(nil)}
}

type S24M3_F482 struct {
	F482 int32 `protobuf:"zigzag32,482,opt,name=f482,json=jf482,oneof" json:"jf482,omitempty"`
}

func (*S24M3_F482) isS24M3_O0() {}

type S24M4 struct {
	F4               []uint32   `protobuf:"fixed32,4,rep,packed,name=f4,proto3"`
	F8               []uint64   `protobuf:"fixed64,8,rep,packed,name=f8,json=jf8" json:"jf8,omitempty"`
	F998             []string   `protobuf:"bytes,998,rep,name=f998,json=jf998" json:"jf998,omitempty"`
	F1002            []int64    `protobuf:"varint,1002,rep"`
	O0               isS24M4_O0 `protobuf_oneof:"o0"`
	XXX_unrecognized []byte     `json:"-"`
}

type isS24M4_O0 interface{ isS24M4_O0() }

func (*S24M4) XXX_OneofWrappers() []any {
	return []any{(*S24M4_F1003)(nil)}
}

type S24M4_F1003 struct {
	F1003 []byte `protobuf:"bytes,1003,opt,name=f1003,proto3,oneof"`
}

func (*S24M4_F1003) isS24M4_O0() {}

type S25M1 struct {
	O0   isS25M1_O0 `protobuf_oneof:"o0"`
	F999 S25M2      `protobuf:"bytes,999,opt"`
	F407 []uint64   `protobuf:"fixed64,407,rep,name=f407,json=jf407" json:"jf407,omitempty"`
}

type isS25M1_O0 interface{ isS25M1_O0() }

func (*S25M1) XXX_OneofWrappers() []any {
	return []any{(*S25M1_F33554431)(nil), (*S25M1_F1)(nil)}
}

type S25M1_F33554431 struct {
	F33554431 int64 `protobuf:"zigzag64,33554431,opt,name=f33554431,proto3,oneof"`
}

func (*S25M1_F33554431) isS25M1_O0() {}

type S25M1_F1 struct {
	F1 *S25M3 `protobuf:"bytes,1,opt,name=f1,proto3,oneof"`
}

func (*S25M1_F1) isS25M1_O0() {}

type S25M2 struct {
	F4            map[uint32]float32 `protobuf:"bytes,4,rep,name=f4,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	O0            isS25M2_O0         `protobuf_oneof:"o0"`
	F5            []float64          `protobuf:"fixed64,5,rep,name=f5,json=jf5" json:"jf5,omitempty"`
	F9            bool               `protobuf:"varint,9,opt,proto3"`
	Canary4       uint64
	unknownFields []byte
}

type isS25M2_O0 interface{ isS25M2_O0() }

func (*S25M2) XXX_OneofWrappers() []any {
	return []any{(*S25M2_F1003)(nil), (*S25M2_F6)(nil)}
}

type S25M2_F1003 struct {
	F1003 int32 `protobuf:"varint,1003,opt,name=f1003,proto3,oneof"`
}

func (*S25M2_F1003) isS25M2_O0() {}

type S25M2_F6 struct {
	F6 int32 `protobuf:"varint,6,opt,oneof"`
}

func (*S25M2_F6) isS25M2_O0() {}

type S25M3 struct {
	F24     []string   `protobuf:"bytes,24,rep"`
	O0      isS25M3_O0 `protobuf_oneof:"o0"`
	F5      bool       `protobuf:"varint,5,opt,name=f5,json=jf5,proto3" json:"jf5,omitempty"`
	F522    *S25M4     `protobuf:"bytes,522,opt"`
	Canary3 uint64
}

type isS25M3_O0 interface{ isS25M3_O0() }

func (*S25M3) XXX_OneofWrappers() []any {
	return []any{(*S25M3_F1)(nil)}
}

type S25M3_F1 struct {
	F1 float32 `protobuf:"fixed32,1,opt,name=f1,proto3,oneof"`
}

func (*S25M3_F1) isS25M3_O0() {}

type S25M4 struct {
	F1005         []int32 `protobuf:"varint,1005,rep,packed"`
	F1004         []int32 `protobuf:"zigzag32,1004,rep,name=f1004,json=jf1004" json:"jf1004,omitempty"`
	F71           string  `protobuf:"bytes,71,opt,name=f71,json=jf71,proto3" json:"jf71,omitempty"`
	Canary2       uint64
	F6            *int64     `protobuf:"fixed64,6,opt"`
	F13           []int64    `protobuf:"zigzag64,13,rep,packed,name=f13,proto3"`
	F8            string     `protobuf:"bytes,8,opt,name=f8,json=jf8,proto3" json:"jf8,omitempty"`
	O0            isS25M4_O0 `protobuf_oneof:"o0"`
	F1006         *uint32    `protobuf:"fixed32,1006,req,name=f1006"`
	unknownFields *[]byte
}

type isS25M4_O0 interface{ isS25M4_O0() }

func (*S25M4) XXX_OneofWrappers() []any {
	return []any{(*S25M4_F15)(nil), (*S25M4_F14)(nil), (*S25M4_F775)(nil)}
}

type S25M4_F15 struct {
	F15 string `protobuf:"bytes,15,opt,oneof"`
}

func (*S25M4_F15) isS25M4_O0() {}

type S25M4_F14 struct {
	F14 []byte `protobuf:"bytes,14,opt,name=f14,json=jf14,oneof" json:"jf14,omitempty"`
}

func (*S25M4_F14) isS25M4_O0() {}

type S25M4_F775 struct {
	F775 uint32 `protobuf:"varint,775,opt,name=f775,proto3,oneof"`
}

func (*S25M4_F775) isS25M4_O0() {}

type S26M1 struct {
	F5 map[int32]string `protobuf:"bytes,5,rep,name=f5,json=jf5" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value" json:"jf5,omitempty"`
}

func (*S26M1) XXX_OneofWrappers() []any {
	return []any{}
}

type S27M1 struct {
	F8         [][]byte `protobuf:"bytes,8,rep,name=f8,json=jf8" json:"jf8,omitempty"`
	Canary0    uint64
	F436052555 []int64 `protobuf:"fixed64,436052555,rep,packed,name=f436052555,json=jf436052555" json:"jf436052555,omitempty"`
	F25        int64   `protobuf:"varint,25,opt,name=f25,proto3"`
	F11        *bool   `protobuf:"varint,11,opt,name=f11,json=jf11,def=1" json:"jf11,omitempty"`
	F316       int64   `protobuf:"zigzag64,316,opt,name=f316,proto3"`
}

func (*S27M1) XXX_OneofWrappers() []any {
	return []any{}
}

type S28M1 struct {
	F7      [][]byte         `protobuf:"bytes,7,rep,name=f7,proto3"`
	F2      *S28M2           `protobuf:"bytes,2,opt,name=f2,json=jf2" json:"jf2,omitempty"`
	F10     bool             `protobuf:"varint,10,opt,name=f10,proto3"`
	F14     map[string]bool  `protobuf:"bytes,14,rep,name=f14,json=jf14" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf14,omitempty"`
	F996    uint64           `protobuf:"varint,996,opt,proto3"`
	F830    *uint64          `protobuf:"fixed64,830,opt,name=f830,json=jf830,def=42" json:"jf830,omitempty"`
	F17     map[int64][]byte `protobuf:"bytes,17,rep,name=f17,json=jf17" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value" json:"jf17,omitempty"`
	Canary6 [3]byte
	F21     map[uint64]sch.E   `protobuf:"bytes,21,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F921    map[uint64]float32 `protobuf:"bytes,921,rep" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
}

func (*S28M1) XXX_OneofWrappers() []any {
	return []any{}
}

type S28M2 struct {
	F20000     []int32           `protobuf:"zigzag32,20000,rep,packed,name=f20000,json=jf20000" json:"jf20000,omitempty"`
	F233456616 map[uint64]*S28M3 `protobuf:"bytes,233456616,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F34        map[bool]S28M4    `protobuf:"bytes,34,rep,name=f34,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F2048      map[int32]*S28M4  `protobuf:"bytes,2048,rep,name=f2048,json=jf2048" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value" json:"jf2048,omitempty"`
	F19        *S28M3            `protobuf:"bytes,19,opt,name=f19,proto3"`
	F3         *uint64           `protobuf:"varint,3,opt"`
	Canary5    [3]byte
	F114       []float32 `protobuf:"fixed32,114,rep"`
	F1003      *int64    `protobuf:"varint,1003,opt,name=f1003,proto3,oneof"`
	F6         int32     `protobuf:"zigzag32,6,opt,proto3"`
}

func (*S28M2) XXX_OneofWrappers() []any {
	return []any{}
}

type S28M3 struct {
	F27       float64          `protobuf:"fixed64,27,opt,proto3"`
	O0        isS28M3_O0       `protobuf_oneof:"o0"`
	F1        *uint64          `protobuf:"fixed64,1,req,name=f1"`
	F37       int32            `protobuf:"fixed32,37,opt,name=f37,proto3"`
	F1002     []sch.E          `protobuf:"varint,1002,rep,packed"`
	F8        map[int32]uint32 `protobuf:"bytes,8,rep,name=f8,json=jf8" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value" json:"jf8,omitempty"`
	O1        isS28M3_O1       `protobuf_oneof:"o1"`
	F39       map[int32]uint32 `protobuf:"bytes,39,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F33554431 float32          `protobuf:"fixed32,33554431,opt,name=f33554431,proto3"`
}

type isS28M3_O0 interface{ isS28M3_O0() }

type isS28M3_O1 interface{ isS28M3_O1() }

func (*S28M3) XXX_OneofWrappers() []any {
	return []any{(*S28M3_F6)(nil), (*S28M3_F262144)(nil), (*S28M3_F1006)(nil)}
}

type S28M3_F6 struct {
	F6 int32 `protobuf:"varint,6,opt,oneof"`
}

func (*S28M3_F6) isS28M3_O0() {}

type S28M3_F262144 struct {
	F262144 float64 `protobuf:"fixed64,262144,opt,name=f262144,proto3,oneof"`
}

func (*S28M3_F262144) isS28M3_O0() {}

type S28M3_F1006 struct {
	F1006 int32 `protobuf:"varint,1006,opt,name=f1006,proto3,oneof"`
}

func (*S28M3_F1006) isS28M3_O1() {}

type S28M4 struct {
	F4            uint32          `protobuf:"fixed32,4,opt,name=f4,proto3"`
	O0            isS28M4_O0      `protobuf_oneof:"o0"`
	F1            []sch.E         `protobuf:"varint,1,rep,name=f1,proto3,enum=t.E"`
	F476          map[int32]int64 `protobuf:"bytes,476,rep,name=f476,json=jf476" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value" json:"jf476,omitempty"`
	Canary3       [3]byte
	unknownFields []byte
}

type isS28M4_O0 interface{ isS28M4_O0() }

func (*S28M4) XXX_OneofWrappers() []any {
	return []any{(*S28M4_F7)(nil), (*S28M4_F14)(nil)}
}

type S28M4_F7 struct {
	F7 string `protobuf:"bytes,7,opt,name=f7,proto3,oneof"`
}

func (*S28M4_F7) isS28M4_O0() {}

type S28M4_F14 struct {
	F14 int64 `protobuf:"varint,14,opt,name=f14,json=jf14,oneof" json:"jf14,omitempty"`
}

func (*S28M4_F14) isS28M4_O0() {}

type S29M1 struct {
	F14           []int64 `protobuf:"fixed64,14,rep,packed,name=f14,json=jf14" json:"jf14,omitempty"`
	unknownFields *[]byte
}

func (*S29M1) XXX_OneofWrappers() []any {
	return []any{}
}

type S30M1 struct {
	F13     uint64 `protobuf:"fixed64,13,opt,name=f13,proto3"`
	F28     int32  `protobuf:"varint,28,opt,name=f28,proto3"`
	Canary1 [3]byte
	O0      isS30M1_O0      `protobuf_oneof:"o0"`
	F495    map[int64]int32 `protobuf:"bytes,495,rep" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F23     *float32        `protobuf:"fixed32,23,opt,name=f23,json=jf23,def=42" json:"jf23,omitempty"`
	F14     *int32          `protobuf:"fixed32,14,opt,name=f14,json=jf14,def=42" json:"jf14,omitempty"`
	F15     uint32          `protobuf:"varint,15,opt,proto3"`
	Canary8 uint8
}

type isS30M1_O0 interface{ isS30M1_O0() }

func (*S30M1) XXX_OneofWrappers() []any {
	return []any{(*S30M1_F148)(nil), (*S30M1_F18999)(nil), (*S30M1_F1001)(nil), (*S30M1_F431597913)(nil)}
}

type S30M1_F148 struct {
	F148 uint32 `protobuf:"fixed32,148,opt,name=f148,proto3,oneof"`
}

func (*S30M1_F148) isS30M1_O0() {}

type S30M1_F18999 struct {
	F18999 *S30M2 `protobuf:"bytes,18999,opt,oneof"`
}

func (*S30M1_F18999) isS30M1_O0() {}

type S30M1_F1001 struct {
	F1001 uint64 `protobuf:"fixed64,1001,opt,name=f1001,json=jf1001,oneof" json:"jf1001,omitempty"`
}

func (*S30M1_F1001) isS30M1_O0() {}

type S30M1_F431597913 struct {
	F431597913 *S30M5 `protobuf:"bytes,431597913,opt,oneof"`
}

func (*S30M1_F431597913) isS30M1_O0() {}

type S30M2 struct {
	F33554432     S30M3 `protobuf:"bytes,33554432,opt,name=f33554432,json=jf33554432" json:"jf33554432,omitempty"`
	Canary0       [3]byte
	F4            bool       `protobuf:"varint,4,opt,name=f4,proto3"`
	F20000        sch.E      `protobuf:"varint,20000,opt,name=f20000,json=jf20000,proto3,enum=t.E" json:"jf20000,omitempty"`
	O0            isS30M2_O0 `protobuf_oneof:"o0"`
	unknownFields []byte
}

type isS30M2_O0 interface{ isS30M2_O0() }

func (*S30M2) XXX_OneofWrappers() []any {
	return []any{(*S30M2_F20)(nil)}
}

type S30M2_F20 struct {
	F20 *S30M4 `protobuf:"bytes,20,opt,name=f20,json=jf20,oneof" json:"jf20,omitempty"`
}

func (*S30M2_F20) isS30M2_O0() {}

type S30M3 struct {
	F11           map[uint32]uint32 `protobuf:"bytes,11,rep,name=f11,json=jf11" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf11,omitempty"`
	F1000         map[uint32]bool   `protobuf:"bytes,1000,rep,name=f1000,proto3" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F467360910    *int32            `protobuf:"varint,467360910,opt"`
	F33           int64             `protobuf:"fixed64,33,opt,proto3"`
	F4            []string          `protobuf:"bytes,4,rep,name=f4,proto3"`
	F1005         *sch.E            `protobuf:"varint,1005,opt"`
	F2            []bool            `protobuf:"varint,2,rep,name=f2,json=jf2" json:"jf2,omitempty"`
	Canary6       uint8
	F453          *float64 `protobuf:"fixed64,453,opt"`
	unknownFields *[]byte
}

func (*S30M3) XXX_OneofWrappers() []any {
	return []any{}
}

type S30M4 struct {
	O0            isS30M4_O0       `protobuf_oneof:"o0"`
	F15           float64          `protobuf:"fixed64,15,opt,proto3"`
	F13           map[int32]string `protobuf:"bytes,13,rep,name=f13,proto3" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	unknownFields []byte
}

type isS30M4_O0 interface{ isS30M4_O0() }

func (*S30M4) XXX_OneofWrappers() []any {
	return []any{(*S30M4_F8)(nil), (*S30M4_F996)(nil)}
}

type S30M4_F8 struct {
	F8 int32 `protobuf:"zigzag32,8,opt,name=f8,json=jf8,oneof" json:"jf8,omitempty"`
}

func (*S30M4_F8) isS30M4_O0() {}

type S30M4_F996 struct {
	F996 int32 `protobuf:"varint,996,opt,oneof"`
}

func (*S30M4_F996) isS30M4_O0() {}

type S30M5 struct {
	F8               []int32 `protobuf:"fixed32,8,rep,name=f8,json=jf8" json:"jf8,omitempty"`
	F34              *int64  `protobuf:"varint,34,opt,name=f34,proto3,oneof"`
	XXX_unrecognized []byte  `json:"-"`
}

func (*S30M5) XXX_OneofWrappers() []any {
	return []any{}
}

type S31M1 struct {
	F8               int64            `protobuf:"zigzag64,8,opt,name=f8,json=jf8,proto3" json:"jf8,omitempty"`
	O0               isS31M1_O0       `protobuf_oneof:"o0"`
	F9               int32            `protobuf:"varint,9,opt,proto3"`
	F12              map[bool]float32 `protobuf:"bytes,12,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	Canary3          uint8
	F208             map[int32]*S31M2 `protobuf:"bytes,208,rep,name=f208,proto3" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F40              *S31M5           `protobuf:"bytes,40,opt,name=f40,proto3"`
	F4               S31M6            `protobuf:"bytes,4,opt,name=f4,proto3"`
	F18999           uint32           `protobuf:"fixed32,18999,opt,proto3"`
	XXX_unrecognized *[]byte          `json:"-"`
}

type isS31M1_O0 interface{ isS31M1_O0() }

func (*S31M1) XXX_OneofWrappers() []any {
	return []any{(*S31M1_F15)(nil)}
}

type S31M1_F15 struct {
	F15 uint64 `protobuf:"fixed64,15,opt,oneof"`
}

func (*S31M1_F15) isS31M1_O0() {}

type S31M2 struct {
	F14              []bool   `protobuf:"varint,14,rep,name=f14,json=jf14" json:"jf14,omitempty"`
	F15              *S31M3   `protobuf:"bytes,15,opt"`
	F592             *float32 `protobuf:"fixed32,592,req,name=f592"`
	Canary2          uint8
	F2               []*S31M4 `protobuf:"bytes,2,rep,name=f2,json=jf2" json:"jf2,omitempty"`
	XXX_unrecognized []byte   `json:"-"`
}

func (*S31M2) XXX_OneofWrappers() []any {
	return []any{}
}

type S31M3 struct {
	O0            isS31M3_O0 `protobuf_oneof:"o0"`
	F15           []bool     `protobuf:"varint,15,rep"`
	Canary1       uint8
	F12           *int64             `protobuf:"fixed64,12,opt"`
	F696          map[uint64]float64 `protobuf:"bytes,696,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F2            []int64            `protobuf:"fixed64,2,rep,name=f2,json=jf2" json:"jf2,omitempty"`
	unknownFields []byte
}

type isS31M3_O0 interface{ isS31M3_O0() }

func (*S31M3) XXX_OneofWrappers() []any {
	return []any{(*S31M3_F6)(nil)}
}

type S31M3_F6 struct {
	F6 bool `protobuf:"varint,6,opt,oneof"`
}

func (*S31M3_F6) isS31M3_O0() {}

type S31M4 struct {
	F33554432 []int32 `protobuf:"zigzag32,33554432,rep,packed,name=f33554432,json=jf33554432" json:"jf33554432,omitempty"`
	Canary0   uint8
	F136      map[int32]uint32 `protobuf:"bytes,136,rep,name=f136,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	O0        isS31M4_O0       `protobuf_oneof:"o0"`
	O1        isS31M4_O1       `protobuf_oneof:"o1"`
	F13       *[]byte          `protobuf:"bytes,13,opt,name=f13"`
	F12       float32          `protobuf:"fixed32,12,opt,proto3"`
	F2        uint32           `protobuf:"varint,2,opt,name=f2,json=jf2,proto3" json:"jf2,omitempty"`
	F18999    *int64           `protobuf:"fixed64,18999,opt"`
	Canary7   string
}

type isS31M4_O0 interface{ isS31M4_O0() }

type isS31M4_O1 interface{ isS31M4_O1() }

func (*S31M4) XXX_OneofWrappers() []any {
	return []any{(*S31M4_F579)(nil), (*S31M4_F3)(nil)}
}

type S31M4_F579 struct {
	F579 float64 `protobuf:"fixed64,579,opt,oneof"`
}

func (*S31M4_F579) isS31M4_O0() {}

type S31M4_F3 struct {
	F3 int32 `protobuf:"zigzag32,3,opt,oneof"`
}

func (*S31M4_F3) isS31M4_O1() {}

type S31M5 struct {
	F15           uint64 `protobuf:"fixed64,15,opt,proto3"`
	unknownFields *[]byte
}

func (*S31M5) XXX_OneofWrappers() []any {
	return []any{}
}

type S31M6 struct {
	F5      map[uint32]bool `protobuf:"bytes,5,rep,name=f5,json=jf5" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf5,omitempty"`
	O0      isS31M6_O0      `protobuf_oneof:"o0"`
	F16     []*S31M7        `protobuf:"bytes,16,rep,name=f16,proto3"`
	F6      []byte          `protobuf:"bytes,6,opt,proto3"`
	F11     []int64         `protobuf:"varint,11,rep,packed,name=f11,json=jf11" json:"jf11,omitempty"`
	Canary5 string
	F433    []sch.E          `protobuf:"varint,433,rep,packed,name=f433,proto3,enum=t.E"`
	F20     map[int64]string `protobuf:"bytes,20,rep,name=f20,json=jf20" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value" json:"jf20,omitempty"`
}

type isS31M6_O0 interface{ isS31M6_O0() }

func (*S31M6) XXX_OneofWrappers() []any {
	return []any{(*S31M6_F338)(nil), (*S31M6_F15)(nil)}
}

type S31M6_F338 struct {
	F338 float64 `protobuf:"fixed64,338,opt,name=f338,json=jf338,oneof" json:"jf338,omitempty"`
}

func (*S31M6_F338) isS31M6_O0() {}

type S31M6_F15 struct {
	F15 float32 `protobuf:"fixed32,15,opt,oneof"`
}

func (*S31M6_F15) isS31M6_O0() {}

type S31M7 struct {
	F191360019       int32            `protobuf:"varint,191360019,opt,proto3"`
	F13              int32            `protobuf:"varint,13,opt,name=f13,proto3"`
	F39              uint64           `protobuf:"fixed64,39,opt,proto3"`
	F4               map[int32][]byte `protobuf:"bytes,4,rep,name=f4,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F566             *uint32          `protobuf:"varint,566,opt,name=f566,json=jf566,def=42" json:"jf566,omitempty"`
	Canary4          string
	XXX_unrecognized []byte `json:"-"`
}

func (*S31M7) XXX_OneofWrappers() []any {
	return []any{}
}

type S32M1 struct {
	F15              *S32M2 `protobuf:"bytes,15,opt"`
	F6               *int32 `protobuf:"fixed32,6,opt"`
	XXX_unrecognized []byte `json:"-"`
}

func (*S32M1) XXX_OneofWrappers() []any {
	return []any{}
}

type S32M2 struct {
	F536870911    sch.E    `protobuf:"varint,536870911,opt,name=f536870911,proto3,enum=t.E"`
	F2            S32M3    `protobuf:"bytes,2,opt,name=f2,json=jf2" json:"jf2,omitempty"`
	F6            *float32 `protobuf:"fixed32,6,opt"`
	Canary2       string
	unknownFields []byte
}

func (*S32M2) XXX_OneofWrappers() []any {
	return []any{}
}

type S32M3 struct {
	O0 isS32M3_O0 `protobuf_oneof:"o0"`
	O1 isS32M3_O1 `protobuf_oneof:"o1"`
}

type isS32M3_O0 interface{ isS32M3_O0() }

type isS32M3_O1 interface{ isS32M3_O1() }

func (*S32M3) XXX_OneofWrappers() []any {
	return []any{(*S32M3_F1001)(nil), (*S32M3_F7)(nil), (*S32M3_F14)(nil)}
}

type S32M3_F1001 struct {
	F1001 uint64 `protobuf:"fixed64,1001,opt,name=f1001,json=jf1001,oneof" json:"jf1001,omitempty"`
}

func (*S32M3_F1001) isS32M3_O0() {}

type S32M3_F7 struct {
	F7 uint32 `protobuf:"varint,7,opt,name=f7,proto3,oneof"`
}

func (*S32M3_F7) isS32M3_O1() {}

type S32M3_F14 struct {
	F14 float32 `protobuf:"fixed32,14,opt,name=f14,json=jf14,oneof" json:"jf14,omitempty"`
}

func (*S32M3_F14) isS32M3_O0() {}

type S33M1 struct {
	O0               isS33M1_O0         `protobuf_oneof:"o0"`
	F14              map[int64]int32    `protobuf:"bytes,14,rep,name=f14,json=jf14" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value" json:"jf14,omitempty"`
	F24              map[uint32]float32 `protobuf:"bytes,24,rep" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F2047            *S33M2             `protobuf:"bytes,2047,opt,name=f2047,proto3"`
	F536870911       *S33M10            `protobuf:"bytes,536870911,req,name=f536870911"`
	Canary7          uint64
	XXX_unrecognized *[]byte `json:"-"`
}

type isS33M1_O0 interface{ isS33M1_O0() }

func (*S33M1) XXX_OneofWrappers() []any {
	return []any{(*S33M1_F417399146)(nil), (*S33M1_F262144)(nil), (*S33M1_F36)(nil), (*S33M1_F243)(nil)}
}

type S33M1_F417399146 struct {
	F417399146 sch.E `protobuf:"varint,417399146,opt,name=f417399146,json=jf417399146,enum=t.E,oneof" json:"jf417399146,omitempty"`
}

func (*S33M1_F417399146) isS33M1_O0() {}

type S33M1_F262144 struct {
	F262144 int32 `protobuf:"zigzag32,262144,opt,name=f262144,proto3,oneof"`
}

func (*S33M1_F262144) isS33M1_O0() {}

type S33M1_F36 struct {
	F36 float64 `protobuf:"fixed64,36,opt,oneof"`
}

func (*S33M1_F36) isS33M1_O0() {}

type S33M1_F243 struct {
	F243 *S33M6 `protobuf:"bytes,243,opt,oneof"`
}

func (*S33M1_F243) isS33M1_O0() {}

type S33M2 struct {
	F18999           []*S33M3         `protobuf:"bytes,18999,rep"`
	O0               isS33M2_O0       `protobuf_oneof:"o0"`
	F22              map[uint64]S33M4 `protobuf:"bytes,22,rep,name=f22,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F885             []int32          `protobuf:"varint,885,rep,packed"`
	F15              []*S33M5         `protobuf:"bytes,15,rep"`
	F16              map[int32]int64  `protobuf:"bytes,16,rep,name=f16,proto3" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	XXX_unrecognized []byte           `json:"-"`
}

type isS33M2_O0 interface{ isS33M2_O0() }

func (*S33M2) XXX_OneofWrappers() []any {
	return []any{(*S33M2_F1)(nil)}
}

type S33M2_F1 struct {
	F1 float32 `protobuf:"fixed32,1,opt,name=f1,proto3,oneof"`
}

func (*S33M2_F1) isS33M2_O0() {}

type S33M3 struct {
	F12              *int64   `protobuf:"fixed64,12,opt"`
	F11              bool     `protobuf:"varint,11,opt,name=f11,json=jf11,proto3" json:"jf11,omitempty"`
	F9               []uint64 `protobuf:"varint,9,rep,packed"`
	F33              *float32 `protobuf:"fixed32,33,opt"`
	F35              *float64 `protobuf:"fixed64,35,opt,name=f35,json=jf35,def=42" json:"jf35,omitempty"`
	F16              *uint32  `protobuf:"varint,16,req,name=f16"`
	Canary5          uint64
	XXX_unrecognized *[]byte `json:"-"`
}

func (*S33M3) XXX_OneofWrappers() []any {
	return []any{}
}

type S33M4 struct {
	F2048         map[int32]uint32 `protobuf:"bytes,2048,rep,name=f2048,json=jf2048" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value" json:"jf2048,omitempty"`
	F128          *uint32          `protobuf:"fixed32,128,opt,name=f128,json=jf128,def=42" json:"jf128,omitempty"`
	F14           map[bool]int64   `protobuf:"bytes,14,rep,name=f14,json=jf14" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value" json:"jf14,omitempty"`
	unknownFields []byte
}

func (*S33M4) XXX_OneofWrappers() []any {
	return []any{}
}

type S33M5 struct {
	F997          int64           `protobuf:"zigzag64,997,opt,name=f997,proto3"`
	O0            isS33M5_O0      `protobuf_oneof:"o0"`
	F4            []uint32        `protobuf:"varint,4,rep,name=f4,proto3"`
	O1            isS33M5_O1      `protobuf_oneof:"o1"`
	F334          map[int32]int32 `protobuf:"bytes,334,rep,name=f334,proto3" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	unknownFields *[]byte
}

type isS33M5_O0 interface{ isS33M5_O0() }

type isS33M5_O1 interface{ isS33M5_O1() }

func (*S33M5) XXX_OneofWrappers() []any {
	return []any{(*S33M5_F630)(nil), (*S33M5_F1005)(nil)}
}

type S33M5_F630 struct {
	F630 int32 `protobuf:"fixed32,630,opt,oneof"`
}

func (*S33M5_F630) isS33M5_O0() {}

type S33M5_F1005 struct {
	F1005 int32 `protobuf:"fixed32,1005,opt,oneof"`
}

func (*S33M5_F1005) isS33M5_O1() {}

type S33M6 struct {
	F12              *S33M7  `protobuf:"bytes,12,opt"`
	F33554432        *sch.E  `protobuf:"varint,33554432,opt,name=f33554432,json=jf33554432,enum=t.E,def=1" json:"jf33554432,omitempty"`
	F684             []int32 `protobuf:"zigzag32,684,rep,packed"`
	Canary2          uint64
	F6               float32   `protobuf:"fixed32,6,opt,proto3"`
	F13              *S33M8    `protobuf:"bytes,13,opt,name=f13,proto3"`
	F8               []S33M9   `protobuf:"bytes,8,rep,name=f8,json=jf8" json:"jf8,omitempty"`
	F38              []float64 `protobuf:"fixed64,38,rep,packed,name=f38,json=jf38" json:"jf38,omitempty"`
	XXX_unrecognized []byte    `json:"-"`
}

func (*S33M6) XXX_OneofWrappers() []any {
	return []any{}
}

type S33M7 struct {
	F13           []int64 `protobuf:"zigzag64,13,rep,name=f13,proto3"`
	F999          int32   `protobuf:"varint,999,opt,proto3"`
	Canary1       uint64
	F12           []uint64         `protobuf:"fixed64,12,rep,packed"`
	F1004         int32            `protobuf:"fixed32,1004,opt,name=f1004,json=jf1004,proto3" json:"jf1004,omitempty"`
	F1005         bool             `protobuf:"varint,1005,opt,proto3"`
	F3            map[int64]string `protobuf:"bytes,3,rep" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F9            *int32           `protobuf:"fixed32,9,opt"`
	F1            *string          `protobuf:"bytes,1,req,name=f1"`
	F8            *int32           `protobuf:"zigzag32,8,opt,name=f8,json=jf8,def=42" json:"jf8,omitempty"`
	Canary8       [3]byte
	F68           *uint64 `protobuf:"varint,68,opt,name=f68,json=jf68,def=42" json:"jf68,omitempty"`
	unknownFields *[]byte
}

func (*S33M7) XXX_OneofWrappers() []any {
	return []any{}
}

type S33M8 struct {
	O0               isS33M8_O0       `protobuf_oneof:"o0"`
	F468941409       []int32          `protobuf:"fixed32,468941409,rep,packed"`
	F15              map[int64]uint32 `protobuf:"bytes,15,rep" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F1004            string           `protobuf:"bytes,1004,opt,name=f1004,json=jf1004,proto3" json:"jf1004,omitempty"`
	F1003            *int64           `protobuf:"fixed64,1003,opt,name=f1003,proto3,oneof"`
	XXX_unrecognized []byte           `json:"-"`
}

type isS33M8_O0 interface{ isS33M8_O0() }

func (*S33M8) XXX_OneofWrappers() []any {
	return []any{(*S33M8_F14)(nil)}
}

type S33M8_F14 struct {
	F14 int64 `protobuf:"varint,14,opt,name=f14,json=jf14,oneof" json:"jf14,omitempty"`
}

func (*S33M8_F14) isS33M8_O0() {}

type S33M9 struct {
	O0               isS33M9_O0       `protobuf_oneof:"o0"`
	F12              []bool           `protobuf:"varint,12,rep,packed"`
	F8               []byte           `protobuf:"bytes,8,opt,name=f8,json=jf8,def=x,req,varint,3" json:"jf8,omitempty"`
	F10              uint32           `protobuf:"varint,10,opt,name=f10,proto3"`
	F6               map[int32]string `protobuf:"bytes,6,rep" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	XXX_unrecognized *[]byte          `json:"-"`
}

type isS33M9_O0 interface{ isS33M9_O0() }

func (*S33M9) XXX_OneofWrappers() []any {
	return []any{(*S33M9_F3)(nil)}
}

type S33M9_F3 struct {
	F3 int32 `protobuf:"varint,3,opt,oneof"`
}

func (*S33M9_F3) isS33M9_O0() {}

type S33M10 struct {
	F11           []*S33M11         `protobuf:"bytes,11,rep,name=f11,json=jf11" json:"jf11,omitempty"`
	F10           map[int32]*S33M12 `protobuf:"bytes,10,rep,name=f10,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F884          *S33M13           `protobuf:"bytes,884,req,name=f884,json=jf884" json:"jf884,omitempty"`
	F32           map[int32]*S33M14 `protobuf:"bytes,32,rep,name=f32,json=jf32" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value" json:"jf32,omitempty"`
	O0            isS33M10_O0       `protobuf_oneof:"o0"`
	F28           []uint64          `protobuf:"fixed64,28,rep,name=f28,proto3"`
	unknownFields *[]byte
}

type isS33M10_O0 interface{ isS33M10_O0() }

func (*S33M10) XXX_OneofWrappers() []any {
	return []any{(*S33M10_F13)(nil), (*S33M10_F3)(nil)}
}

type S33M10_F13 struct {
	F13 sch.E `protobuf:"varint,13,opt,name=f13,proto3,enum=t.E,oneof"`
}

func (*S33M10_F13) isS33M10_O0() {}

type S33M10_F3 struct {
	F3 int32 `protobuf:"zigzag32,3,opt,oneof"`
}

func (*S33M10_F3) isS33M10_O0() {}

type S33M11 struct {
	F2048            int64   `protobuf:"varint,2048,opt,name=f2048,json=jf2048,proto3" json:"jf2048,omitempty"`
	F18999           *uint64 `protobuf:"fixed64,18999,opt"`
	F218             int64   `protobuf:"fixed64,218,opt,name=f218,json=jf218,proto3" json:"jf218,omitempty"`
	XXX_unrecognized []byte  `json:"-"`
}

func (*S33M11) XXX_OneofWrappers() []any {
	return []any{}
}

type S33M12 struct {
	F11           uint64         `protobuf:"fixed64,11,opt,name=f11,json=jf11,proto3" json:"jf11,omitempty"`
	F15           *uint32        `protobuf:"fixed32,15,opt"`
	F5            uint64         `protobuf:"varint,5,opt,name=f5,json=jf5,proto3" json:"jf5,omitempty"`
	F536870910    map[bool]int32 `protobuf:"bytes,536870910,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	Canary3       [3]byte
	unknownFields *[]byte
}

func (*S33M12) XXX_OneofWrappers() []any {
	return []any{}
}

type S33M13 struct {
	F6               *uint64 `protobuf:"fixed64,6,opt"`
	F921             []int64 `protobuf:"zigzag64,921,rep"`
	F310             int64   `protobuf:"varint,310,opt,name=f310,proto3"`
	Canary2          [3]byte
	F43              []int32         `protobuf:"zigzag32,43,rep,name=f43,proto3"`
	F3               map[int32]int32 `protobuf:"bytes,3,rep" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F995             map[int32]bool  `protobuf:"bytes,995,rep,name=f995,json=jf995" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf995,omitempty"`
	F2               float32         `protobuf:"fixed32,2,opt,name=f2,json=jf2,proto3" json:"jf2,omitempty"`
	O0               isS33M13_O0     `protobuf_oneof:"o0"`
	XXX_unrecognized *[]byte         `json:"-"`
}

type isS33M13_O0 interface{ isS33M13_O0() }

func (*S33M13) XXX_OneofWrappers() []any {
	return []any{(*S33M13_F891)(nil)}
}

type S33M13_F891 struct {
	F891 int32 `protobuf:"varint,891,opt,oneof"`
}

func (*S33M13_F891) isS33M13_O0() {}

type S33M14 struct {
	O0               isS33M14_O0 `protobuf_oneof:"o0"`
	F4               *int64      `protobuf:"fixed64,4,opt,name=f4,proto3,oneof"`
	Canary1          [3]byte
	F3               float32   `protobuf:"fixed32,3,opt,proto3"`
	F996             *int32    `protobuf:"varint,996,opt"`
	F1006            []float64 `protobuf:"fixed64,1006,rep,packed,name=f1006,proto3"`
	XXX_unrecognized *[]byte   `json:"-"`
}

type isS33M14_O0 interface{ isS33M14_O0() }

func (*S33M14) XXX_OneofWrappers() []any {
	return []any{(*S33M14_F1005)(nil)}
}

type S33M14_F1005 struct {
	F1005 uint64 `protobuf:"fixed64,1005,opt,oneof"`
}

func (*S33M14_F1005) isS33M14_O0() {}

type S34M1 struct {
	F18999           uint64 `protobuf:"fixed64,18999,opt,proto3"`
	Canary0          [3]byte
	F4               int32    `protobuf:"zigzag32,4,opt,name=f4,proto3"`
	F15              []string `protobuf:"bytes,15,rep"`
	XXX_unrecognized *[]byte  `json:"-"`
}

func (*S34M1) XXX_OneofWrappers() []any {
	return []any{}
}

type S35M1 struct {
	F8               []uint32         `protobuf:"fixed32,8,rep,packed,name=f8,json=jf8" json:"jf8,omitempty"`
	F262144          int64            `protobuf:"fixed64,262144,opt,name=f262144,proto3"`
	F6               []uint64         `protobuf:"fixed64,6,rep,packed"`
	F11              []byte           `protobuf:"bytes,11,opt,name=f11,json=jf11,proto3" json:"jf11,omitempty"`
	F9               float32          `protobuf:"fixed32,9,opt,proto3"`
	F15              map[uint32]int64 `protobuf:"bytes,15,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F10              map[int64]uint64 `protobuf:"bytes,10,rep,name=f10,proto3" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	Canary6          uint8
	XXX_unrecognized *[]byte `json:"-"`
}

func (*S35M1) XXX_OneofWrappers() []any {
	return []any{}
}

type S36M1 struct {
	F14              *S36M2          `protobuf:"bytes,14,opt,name=f14,json=jf14" json:"jf14,omitempty"`
	F2               S36M4           `protobuf:"bytes,2,opt,name=f2,json=jf2" json:"jf2,omitempty"`
	F996             []int64         `protobuf:"fixed64,996,rep,packed"`
	F13              *S36M4          `protobuf:"bytes,13,opt,name=f13,proto3"`
	F30              map[int32]int32 `protobuf:"bytes,30,rep" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F8               []uint64        `protobuf:"fixed64,8,rep,name=f8,json=jf8" json:"jf8,omitempty"`
	Canary5          uint8
	F340             sch.E    `protobuf:"varint,340,opt,name=f340,proto3,enum=t.E"`
	F26              *S36M3   `protobuf:"bytes,26,opt,name=f26,json=jf26" json:"jf26,omitempty"`
	F228728171       *int32   `protobuf:"fixed32,228728171,opt,name=f228728171,json=jf228728171,def=42" json:"jf228728171,omitempty"`
	F12              *float64 `protobuf:"fixed64,12,opt"`
	XXX_unrecognized []byte   `json:"-"`
}

func (*S36M1) XXX_OneofWrappers() []any {
	return []any{}
}

type S36M2 struct {
	F9            *S36M3        `protobuf:"bytes,9,opt"`
	F35           sch.E         `protobuf:"varint,35,opt,name=f35,json=jf35,proto3,enum=t.E" json:"jf35,omitempty"`
	F536870910    []int32       `protobuf:"varint,536870910,rep,packed"`
	F31           map[bool]bool `protobuf:"bytes,31,rep,name=f31,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	unknownFields *[]byte
}

func (*S36M2) XXX_OneofWrappers() []any {
	return []any{}
}

type S36M3 struct {
	F12              []bool           `protobuf:"varint,12,rep,packed"`
	F6               uint32           `protobuf:"fixed32,6,opt,proto3"`
	F11              *int64           `protobuf:"varint,11,opt,name=f11,json=jf11,def=42" json:"jf11,omitempty"`
	O0               isS36M3_O0       `protobuf_oneof:"o0"`
	F2               *sch.E           `protobuf:"varint,2,opt,name=f2,json=jf2,enum=t.E,def=1" json:"jf2,omitempty"`
	F997             map[int32]int64  `protobuf:"bytes,997,rep,name=f997,proto3" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F14              map[int64][]byte `protobuf:"bytes,14,rep,name=f14,json=jf14" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value" json:"jf14,omitempty"`
	F4               uint32           `protobuf:"varint,4,opt,name=f4,proto3"`
	F7               map[int64]int32  `protobuf:"bytes,7,rep,name=f7,proto3" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	XXX_unrecognized []byte           `json:"-"`
}

type isS36M3_O0 interface{ isS36M3_O0() }

func (*S36M3) XXX_OneofWrappers() []any {
	return []any{(*S36M3_F13)(nil), (*S36M3_F37)(nil)}
}

type S36M3_F13 struct {
	F13 int64 `protobuf:"varint,13,opt,name=f13,proto3,oneof"`
}

func (*S36M3_F13) isS36M3_O0() {}

type S36M3_F37 struct {
	F37 int64 `protobuf:"fixed64,37,opt,name=f37,proto3,oneof"`
}

func (*S36M3_F37) isS36M3_O0() {}

type S36M4 struct {
	F15              uint32  `protobuf:"fixed32,15,opt,proto3"`
	F408675754       int32   `protobuf:"varint,408675754,opt,name=f408675754,proto3"`
	F8               []int32 `protobuf:"zigzag32,8,rep,packed,name=f8,json=jf8" json:"jf8,omitempty"`
	Canary2          uint8
	F894             int64   `protobuf:"varint,894,opt,proto3"`
	F11              []byte  `protobuf:"bytes,11,opt,name=f11,json=jf11,proto3" json:"jf11,omitempty"`
	F7               float32 `protobuf:"fixed32,7,opt,name=f7,proto3"`
	F842             []byte  `protobuf:"bytes,842,opt,name=f842,json=jf842,def=x,req,varint,3" json:"jf842,omitempty"`
	XXX_unrecognized []byte  `json:"-"`
}

func (*S36M4) XXX_OneofWrappers() []any {
	return []any{}
}

type S37M1 struct {
	F1            int32  `protobuf:"fixed32,1,opt,name=f1,proto3"`
	F7            *S37M2 `protobuf:"bytes,7,opt,name=f7,proto3"`
	Canary1       uint8
	O0            isS37M1_O0 `protobuf_oneof:"o0"`
	unknownFields *[]byte
}

type isS37M1_O0 interface{ isS37M1_O0() }

func (*S37M1) XXX_OneofWrappers() []any {
	return []any{(*S37M1_F229)(nil), (*S37M1_F14)(nil)}
}

type S37M1_F229 struct {
	F229 *S37M4 `protobuf:"bytes,229,opt,name=f229,proto3,oneof"`
}

func (*S37M1_F229) isS37M1_O0() {}

type S37M1_F14 struct {
	F14 *S37M6 `protobuf:"bytes,14,opt,name=f14,json=jf14,oneof" json:"jf14,omitempty"`
}

func (*S37M1_F14) isS37M1_O0() {}

type S37M2 struct {
	F13              []int32 `protobuf:"varint,13,rep,name=f13,proto3"`
	Canary0          uint8
	F28              *uint64    `protobuf:"varint,28,opt,name=f28,proto3,oneof"`
	O0               isS37M2_O0 `protobuf_oneof:"o0"`
	F14              *S37M3     `protobuf:"bytes,14,req,name=f14,json=jf14" json:"jf14,omitempty"`
	F9               []string   `protobuf:"bytes,9,rep"`
	O1               isS37M2_O1 `protobuf_oneof:"o1"`
	F11              string     `protobuf:"bytes,11,opt,name=f11,json=jf11,proto3" json:"jf11,omitempty"`
	XXX_unrecognized []byte     `json:"-"`
}

type isS37M2_O0 interface{ isS37M2_O0() }

type isS37M2_O1 interface{ isS37M2_O1() }

func (*S37M2) XXX_OneofWrappers() []any {
	return []any{(*S37M2_F262144)(nil), (*S37M2_F1)(nil)}
}

type S37M2_F262144 struct {
	F262144 uint64 `protobuf:"fixed64,262144,opt,name=f262144,proto3,oneof"`
}

func (*S37M2_F262144) isS37M2_O0() {}

type S37M2_F1 struct {
	F1 float32 `protobuf:"fixed32,1,opt,name=f1,proto3,oneof"`
}

func (*S37M2_F1) isS37M2_O1() {}

type S37M3 struct {
	F8            []int32         `protobuf:"zigzag32,8,rep,packed,name=f8,json=jf8" json:"jf8,omitempty"`
	F354          int64           `protobuf:"zigzag64,354,opt,proto3"`
	F859          []byte          `protobuf:"bytes,859,opt,name=f859,proto3"`
	F433580546    map[int64]int32 `protobuf:"bytes,433580546,rep,name=f433580546,json=jf433580546" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf433580546,omitempty"`
	O0            isS37M3_O0      `protobuf_oneof:"o0"`
	F995          []int32         `protobuf:"zigzag32,995,rep,packed,name=f995,json=jf995" json:"jf995,omitempty"`
	F381643977    float64         `protobuf:"fixed64,381643977,opt,proto3"`
	Canary6       string
	O1            isS37M3_O1 `protobuf_oneof:"o1"`
	unknownFields []byte
}

type isS37M3_O0 interface{ isS37M3_O0() }

type isS37M3_O1 interface{ isS37M3_O1() }

func (*S37M3) XXX_OneofWrappers() []any {
	return []any{(*S37M3_F536870910)(nil), (*S37M3_F997)(nil)}
}

type S37M3_F536870910 struct {
	F536870910 uint64 `protobuf:"varint,536870910,opt,oneof"`
}

func (*S37M3_F536870910) isS37M3_O0() {}

type S37M3_F997 struct {
	F997 int64 `protobuf:"fixed64,997,opt,name=f997,proto3,oneof"`
}

func (*S37M3_F997) isS37M3_O1() {}

type S37M4 struct {
	O0            isS37M4_O0      `protobuf_oneof:"o0"`
	F18999        uint64          `protobuf:"varint,18999,opt,proto3"`
	F40           map[int32]int64 `protobuf:"bytes,40,rep,name=f40,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	F20000        *bool           `protobuf:"varint,20000,opt,name=f20000,json=jf20000,def=1" json:"jf20000,omitempty"`
	F2            *S37M5          `protobuf:"bytes,2,opt,name=f2,json=jf2" json:"jf2,omitempty"`
	F4            []int64         `protobuf:"varint,4,rep,packed,name=f4,proto3"`
	Canary5       string
	unknownFields []byte
}

type isS37M4_O0 interface{ isS37M4_O0() }

func (*S37M4) XXX_OneofWrappers() []any {
	return []any{(*S37M4_F172617625)(nil), (*S37M4_F153236471)(nil)}
}

type S37M4_F172617625 struct {
	F172617625 *S37M3 `protobuf:"bytes,172617625,opt,name=f172617625,proto3,oneof"`
}

func (*S37M4_F172617625) isS37M4_O0() {}

type S37M4_F153236471 struct {
	F153236471 float64 `protobuf:"fixed64,153236471,opt,name=f153236471,json=jf153236471,oneof" json:"jf153236471,omitempty"`
}

func (*S37M4_F153236471) isS37M4_O0() {}

type S37M5 struct {
	F28        int32   `protobuf:"varint,28,opt,name=f28,proto3"`
	F1003      float32 `protobuf:"fixed32,1003,opt,name=f1003,proto3"`
	F178568561 uint64  `protobuf:"fixed64,178568561,opt,name=f178568561,json=jf178568561,proto3" json:"jf178568561,omitempty"`
	F262144    []int32 `protobuf:"zigzag32,262144,rep,name=f262144,proto3"`
	F34        int64   `protobuf:"fixed64,34,opt,name=f34,proto3"`
	Canary4    string
	F1005      uint32 `protobuf:"varint,1005,opt,proto3"`
}

func (*S37M5) XXX_OneofWrappers() []any {
	return []any{}
}

type S37M6 struct {
	F15  []*S37M5 `protobuf:"bytes,15,rep"`
	F213 int32    `protobuf:"fixed32,213,opt,proto3"`
}

func (*S37M6) XXX_OneofWrappers() []any {
	return []any{}
}

type S38M1 struct {
	F613          []float32 `protobuf:"fixed32,613,rep,packed,name=f613,proto3"`
	F31           int32     `protobuf:"zigzag32,31,opt,name=f31,proto3"`
	F536870910    []*S38M2  `protobuf:"bytes,536870910,rep"`
	Canary2       string
	F5            map[uint64]S38M4 `protobuf:"bytes,5,rep,name=f5,json=jf5" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value" json:"jf5,omitempty"`
	F7            uint32           `protobuf:"varint,7,opt,name=f7,proto3"`
	F14           map[int32]*S38M2 `protobuf:"bytes,14,rep,name=f14,json=jf14" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value" json:"jf14,omitempty"`
	F15           []S38M4          `protobuf:"bytes,15,rep"`
	F1006         []sch.E          `protobuf:"varint,1006,rep,packed,name=f1006,proto3,enum=t.E"`
	unknownFields *[]byte
}

func (*S38M1) XXX_OneofWrappers() []any {
	return []any{}
}

type S38M2 struct {
	F536870910       []*S38M3 `protobuf:"bytes,536870910,rep"`
	F4               S38M4    `protobuf:"bytes,4,opt,name=f4,proto3"`
	Canary1          string
	F926             uint32           `protobuf:"varint,926,opt,name=f926,json=jf926,proto3" json:"jf926,omitempty"`
	F15              *S38M4           `protobuf:"bytes,15,req"`
	F11              *uint32          `protobuf:"varint,11,opt,name=f11,json=jf11,def=42" json:"jf11,omitempty"`
	F16              map[int32]uint64 `protobuf:"bytes,16,rep,name=f16,proto3" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F2               int32            `protobuf:"fixed32,2,opt,name=f2,json=jf2,proto3" json:"jf2,omitempty"`
	F997             []uint32         `protobuf:"varint,997,rep,packed,name=f997,proto3"`
	XXX_unrecognized []byte           `json:"-"`
}

func (*S38M2) XXX_OneofWrappers() []any {
	return []any{}
}

type S38M3 struct {
	F1002   map[int64]int64 `protobuf:"bytes,1002,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	Canary0 string
	O0      isS38M3_O0 `protobuf_oneof:"o0"`
}

type isS38M3_O0 interface{ isS38M3_O0() }

func (*S38M3) XXX_OneofWrappers() []any {
	return []any{(*S38M3_F1005)(nil), (*S38M3_F4)(nil)}
}

type S38M3_F1005 struct {
	F1005 []byte `protobuf:"bytes,1005,opt,oneof"`
}

func (*S38M3_F1005) isS38M3_O0() {}

type S38M3_F4 struct {
	F4 []byte `protobuf:"bytes,4,opt,name=f4,proto3,oneof"`
}

func (*S38M3_F4) isS38M3_O0() {}

type S38M4 struct {
	O0               isS38M4_O0         `protobuf_oneof:"o0"`
	F17              []float32          `protobuf:"fixed32,17,rep,name=f17,json=jf17" json:"jf17,omitempty"`
	F1003            map[string]float64 `protobuf:"bytes,1003,rep,name=f1003,proto3" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F13              int64              `protobuf:"fixed64,13,opt,name=f13,proto3"`
	XXX_unrecognized []byte             `json:"-"`
}

type isS38M4_O0 interface{ isS38M4_O0() }

func (*S38M4) XXX_OneofWrappers() []any {
	return []any{(*S38M4_F2047)(nil)}
}

type S38M4_F2047 struct {
	F2047 int64 `protobuf:"fixed64,2047,opt,name=f2047,proto3,oneof"`
}

func (*S38M4_F2047) isS38M4_O0() {}

type S39M1 struct {
	F424       *uint32    `protobuf:"varint,424,opt,name=f424,proto3,oneof"`
	O0         isS39M1_O0 `protobuf_oneof:"o0"`
	F12        *uint64    `protobuf:"varint,12,req"`
	F9         *uint64    `protobuf:"fixed64,9,opt"`
	F14        *bool      `protobuf:"varint,14,opt,name=f14,json=jf14,def=1" json:"jf14,omitempty"`
	Canary5    uint64
	F1         int64    `protobuf:"fixed64,1,opt,name=f1,proto3"`
	F35        uint64   `protobuf:"varint,35,opt,name=f35,json=jf35,proto3" json:"jf35,omitempty"`
	F7         int32    `protobuf:"fixed32,7,opt,name=f7,proto3"`
	F140124158 []uint32 `protobuf:"fixed32,140124158,rep,name=f140124158,json=jf140124158" json:"jf140124158,omitempty"`
}

type isS39M1_O0 interface{ isS39M1_O0() }

func (*S39M1) XXX_OneofWrappers() []any {
	return []any{(*S39M1_F5)(nil), (*S39M1_F6)(nil)}
}

type S39M1_F5 struct {
	F5 *S39M2 `protobuf:"bytes,5,opt,name=f5,json=jf5,oneof" json:"jf5,omitempty"`
}

func (*S39M1_F5) isS39M1_O0() {}

type S39M1_F6 struct {
	F6 uint64 `protobuf:"fixed64,6,opt,oneof"`
}

func (*S39M1_F6) isS39M1_O0() {}

type S39M2 struct {
	F536870911    int64            `protobuf:"fixed64,536870911,opt,name=f536870911,proto3"`
	F997          []byte           `protobuf:"bytes,997,opt,name=f997,proto3,oneof"`
	F4            map[int32]uint64 `protobuf:"bytes,4,rep,name=f4,proto3" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	O0            isS39M2_O0       `protobuf_oneof:"o0"`
	F16           *string          `protobuf:"bytes,16,opt,name=f16,proto3,oneof"`
	Canary4       uint64
	unknownFields []byte
}

type isS39M2_O0 interface{ isS39M2_O0() }

func (*S39M2) XXX_OneofWrappers() []any {
	return []any{(*S39M2_F13)(nil)}
}

type S39M2_F13 struct {
	F13 int64 `protobuf:"zigzag64,13,opt,name=f13,proto3,oneof"`
}

func (*S39M2_F13) isS39M2_O0() {}

type S40M1 struct {
	F10              map[uint64]int32 `protobuf:"bytes,10,rep,name=f10,proto3" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F12              *uint64          `protobuf:"varint,12,opt"`
	O0               isS40M1_O0       `protobuf_oneof:"o0"`
	F2               S40M2            `protobuf:"bytes,2,opt,name=f2,json=jf2" json:"jf2,omitempty"`
	Canary3          uint64
	F210             *S40M5  `protobuf:"bytes,210,opt"`
	F536870910       float64 `protobuf:"fixed64,536870910,opt,proto3"`
	XXX_unrecognized []byte  `json:"-"`
}

type isS40M1_O0 interface{ isS40M1_O0() }

func (*S40M1) XXX_OneofWrappers() []any {
	return []any{(*S40M1_F13)(nil)}
}

type S40M1_F13 struct {
	F13 uint32 `protobuf:"varint,13,opt,name=f13,proto3,oneof"`
}

func (*S40M1_F13) isS40M1_O0() {}

type S40M2 struct {
	O0               isS40M2_O0 `protobuf_oneof:"o0"`
	F2               uint32     `protobuf:"varint,2,opt,name=f2,json=jf2,proto3" json:"jf2,omitempty"`
	Canary2          uint64
	XXX_unrecognized *[]byte `json:"-"`
}

type isS40M2_O0 interface{ isS40M2_O0() }

func (*S40M2) XXX_OneofWrappers() []any {
	return []any{(*S40M2_F14)(nil), (*S40M2_F6)(nil), (*S40M2_F3)(nil)}
}

type S40M2_F14 struct {
	F14 *S40M3 `protobuf:"bytes,14,opt,name=f14,json=jf14,oneof" json:"jf14,omitempty"`
}

func (*S40M2_F14) isS40M2_O0() {}

type S40M2_F6 struct {
	F6 *S40M4 `protobuf:"bytes,6,opt,oneof"`
}

func (*S40M2_F6) isS40M2_O0() {}

type S40M2_F3 struct {
	F3 []byte `protobuf:"bytes,3,opt,oneof"`
}

func (*S40M2_F3) isS40M2_O0() {}

type S40M3 struct {
	F1001            *float32 `protobuf:"fixed32,1001,opt,name=f1001,json=jf1001,def=42" json:"jf1001,omitempty"`
	F211             *string  `protobuf:"bytes,211,req,name=f211"`
	Canary1          uint64
	F7               uint64     `protobuf:"varint,7,opt,name=f7,proto3"`
	F1003            string     `protobuf:"bytes,1003,opt,name=f1003,proto3"`
	F10              uint32     `protobuf:"varint,10,opt,name=f10,proto3"`
	F33              uint64     `protobuf:"varint,33,opt,proto3"`
	F262144          int64      `protobuf:"zigzag64,262144,opt,name=f262144,proto3"`
	F995             bool       `protobuf:"varint,995,opt,name=f995,json=jf995,proto3" json:"jf995,omitempty"`
	O0               isS40M3_O0 `protobuf_oneof:"o0"`
	XXX_unrecognized *[]byte    `json:"-"`
}

type isS40M3_O0 interface{ isS40M3_O0() }

func (*S40M3) XXX_OneofWrappers() []any {
	return []any{(*S40M3_F4)(nil)}
}

type S40M3_F4 struct {
	F4 int64 `protobuf:"fixed64,4,opt,name=f4,proto3,oneof"`
}

func (*S40M3_F4) isS40M3_O0() {}

type S40M4 struct {
	F1        string `protobuf:"bytes,1,opt,name=f1,proto3"`
	Canary0   uint64
	F2        *sch.E          `protobuf:"varint,2,opt,name=f2,json=jf2,enum=t.E,def=1" json:"jf2,omitempty"`
	F999      *uint32         `protobuf:"fixed32,999,opt"`
	F33554431 []int32         `protobuf:"zigzag32,33554431,rep,packed,name=f33554431,proto3"`
	O0        isS40M4_O0      `protobuf_oneof:"o0"`
	F14       map[int32]int32 `protobuf:"bytes,14,rep,name=f14,json=jf14" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf14,omitempty"`
	F9        []float32       `protobuf:"fixed32,9,rep,packed"`
	Canary7   [3]byte
	F10       *bool `protobuf:"varint,10,opt,name=f10,proto3,oneof"`
}

type isS40M4_O0 interface{ isS40M4_O0() }

func (*S40M4) XXX_OneofWrappers() []any {
	return []any{(*S40M4_F1001)(nil), (*S40M4_F8)(nil)}
}

type S40M4_F1001 struct {
	F1001 uint64 `protobuf:"varint,1001,opt,name=f1001,json=jf1001,oneof" json:"jf1001,omitempty"`
}

func (*S40M4_F1001) isS40M4_O0() {}

type S40M4_F8 struct {
	F8 uint32 `protobuf:"varint,8,opt,name=f8,json=jf8,oneof" json:"jf8,omitempty"`
}

func (*S40M4_F8) isS40M4_O0() {}

type S40M5 struct {
	O0            isS40M5_O0 `protobuf_oneof:"o0"`
	F22           *int32     `protobuf:"zigzag32,22,opt,name=f22,proto3,oneof"`
	F5            *sch.E     `protobuf:"varint,5,opt,name=f5,json=jf5,enum=t.E,def=1" json:"jf5,omitempty"`
	unknownFields []byte
}

type isS40M5_O0 interface{ isS40M5_O0() }

func (*S40M5) XXX_OneofWrappers() []any {
	return []any{(*S40M5_F4)(nil), (*S40M5_F414)(nil)}
}

type S40M5_F4 struct {
	F4 []byte `protobuf:"bytes,4,opt,name=f4,proto3,oneof"`
}

func (*S40M5_F4) isS40M5_O0() {}

type S40M5_F414 struct {
	F414 int64 `protobuf:"zigzag64,414,opt,oneof"`
}

func (*S40M5_F414) isS40M5_O0() {}

type S41M1 struct {
	F9            *S41M2           `protobuf:"bytes,9,opt"`
	F995          *float64         `protobuf:"fixed64,995,req,name=f995,json=jf995,def=42" json:"jf995,omitempty"`
	F4            int32            `protobuf:"varint,4,opt,name=f4,proto3"`
	F18           map[uint32]S41M4 `protobuf:"bytes,18,rep" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F5            *int32           `protobuf:"zigzag32,5,opt,name=f5,json=jf5,def=42" json:"jf5,omitempty"`
	unknownFields *[]byte
}

func (*S41M1) XXX_OneofWrappers() []any {
	return []any{}
}

type S41M2 struct {
	F31           []float32 `protobuf:"fixed32,31,rep,name=f31,proto3"`
	F10           uint32    `protobuf:"varint,10,opt,name=f10,proto3"`
	F1            []float64 `protobuf:"fixed64,1,rep,packed,name=f1,proto3"`
	F4            []int64   `protobuf:"fixed64,4,rep,packed,name=f4,proto3"`
	F284          []int32   `protobuf:"zigzag32,284,rep,packed,name=f284,json=jf284" json:"jf284,omitempty"`
	Canary4       [3]byte
	F40           int64    `protobuf:"varint,40,opt,name=f40,proto3"`
	F999          []uint32 `protobuf:"varint,999,rep,packed"`
	F262143       []uint64 `protobuf:"varint,262143,rep"`
	F18999        []*S41M3 `protobuf:"bytes,18999,rep"`
	unknownFields []byte
}

func (*S41M2) XXX_OneofWrappers() []any {
	return []any{}
}

type S41M3 struct {
	O0               isS41M3_O0    `protobuf_oneof:"o0"`
	F9               map[bool]bool `protobuf:"bytes,9,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F184             [][]byte      `protobuf:"bytes,184,rep,name=f184,proto3"`
	F1003            *int64        `protobuf:"fixed64,1003,opt,name=f1003,proto3,oneof"`
	Canary3          [3]byte
	F5               *int64 `protobuf:"fixed64,5,opt,name=f5,json=jf5,def=42" json:"jf5,omitempty"`
	F2047            int32  `protobuf:"zigzag32,2047,opt,name=f2047,proto3"`
	XXX_unrecognized []byte `json:"-"`
}

type isS41M3_O0 interface{ isS41M3_O0() }

func (*S41M3) XXX_OneofWrappers() []any {
	return []any{(*S41M3_F995)(nil)}
}

type S41M3_F995 struct {
	F995 int32 `protobuf:"fixed32,995,opt,name=f995,json=jf995,oneof" json:"jf995,omitempty"`
}

func (*S41M3_F995) isS41M3_O0() {}

type S41M4 struct {
	F1 *int64     `protobuf:"varint,1,opt,name=f1,proto3,oneof"`
	O0 isS41M4_O0 `protobuf_oneof:"o0"`
}

type isS41M4_O0 interface{ isS41M4_O0() }

func (*S41M4) XXX_OneofWrappers() []any {
	return []any{(*S41M4_F4)(nil)}
}

type S41M4_F4 struct {
	F4 sch.E `protobuf:"varint,4,opt,name=f4,proto3,enum=t.E,oneof"`
}

func (*S41M4_F4) isS41M4_O0() {}

type S42M1 struct {
	F16              []int64 `protobuf:"varint,16,rep,packed,name=f16,proto3"`
	F35949165        int32   `protobuf:"zigzag32,35949165,opt,proto3"`
	Canary1          [3]byte
	F997             int32            `protobuf:"zigzag32,997,opt,name=f997,proto3"`
	F1006            *uint32          `protobuf:"varint,1006,opt,name=f1006,proto3,oneof"`
	F108             int64            `protobuf:"zigzag64,108,opt,proto3"`
	F1002            *int32           `protobuf:"zigzag32,1002,opt"`
	F1000            map[int64]*S42M2 `protobuf:"bytes,1000,rep,name=f1000,proto3" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	XXX_unrecognized []byte           `json:"-"`
}

func (*S42M1) XXX_OneofWrappers() []any {
	return []any{}
}

type S42M2 struct {
	F997          *uint64 `protobuf:"varint,997,opt,name=f997,proto3,oneof"`
	Canary0       [3]byte
	F1000         *S42M3    `protobuf:"bytes,1000,opt,name=f1000,proto3"`
	F8            S42M4     `protobuf:"bytes,8,opt,name=f8,json=jf8" json:"jf8,omitempty"`
	F262143       []float32 `protobuf:"fixed32,262143,rep"`
	unknownFields []byte
}

func (*S42M2) XXX_OneofWrappers() []any {
	return []any{}
}

type S42M3 struct {
	F1000            int64            `protobuf:"varint,1000,opt,name=f1000,proto3"`
	F15              [][]byte         `protobuf:"bytes,15,rep"`
	F999             []string         `protobuf:"bytes,999,rep"`
	F21              *uint64          `protobuf:"varint,21,opt"`
	F9               uint32           `protobuf:"varint,9,opt,proto3"`
	F2047            map[int32]uint32 `protobuf:"bytes,2047,rep,name=f2047,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F105             []uint32         `protobuf:"fixed32,105,rep"`
	Canary6          uint8
	XXX_unrecognized []byte `json:"-"`
}

func (*S42M3) XXX_OneofWrappers() []any {
	return []any{}
}

type S42M4 struct {
	F13 []bool   `protobuf:"varint,13,rep,name=f13,proto3"`
	F9  []string `protobuf:"bytes,9,rep"`
	F14 *float32 `protobuf:"fixed32,14,req,name=f14,json=jf14,def=42" json:"jf14,omitempty"`
}

func (*S42M4) XXX_OneofWrappers() []any {
	return []any{}
}

type S43M1 struct {
	F2047         map[uint32]S43M2 `protobuf:"bytes,2047,rep,name=f2047,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	unknownFields []byte
}

func (*S43M1) XXX_OneofWrappers() []any {
	return []any{}
}

type S43M2 struct {
	F1003            string  `protobuf:"bytes,1003,opt,name=f1003,proto3"`
	F3               *S43M3  `protobuf:"bytes,3,opt"`
	F1               []int32 `protobuf:"varint,1,rep,packed,name=f1,proto3"`
	XXX_unrecognized *[]byte `json:"-"`
}

func (*S43M2) XXX_OneofWrappers() []any {
	return []any{}
}

type S43M3 struct {
	F14              *uint32 `protobuf:"fixed32,14,opt,name=f14,json=jf14,def=42" json:"jf14,omitempty"`
	XXX_unrecognized *[]byte `json:"-"`
}

func (*S43M3) XXX_OneofWrappers() []any {
	return []any{}
}

type S44M1 struct {
	F3               []*S44M2 `protobuf:"bytes,3,rep"`
	F4               []*S44M4 `protobuf:"bytes,4,rep,name=f4,proto3"`
	Canary1          uint8
	F33554431        []int64 `protobuf:"varint,33554431,rep,name=f33554431,proto3"`
	F321             *bool   `protobuf:"varint,321,opt"`
	F8               uint32  `protobuf:"fixed32,8,opt,name=f8,json=jf8,proto3" json:"jf8,omitempty"`
	F5               []int64 `protobuf:"zigzag64,5,rep,name=f5,json=jf5" json:"jf5,omitempty"`
	XXX_unrecognized *[]byte `json:"-"`
}

func (*S44M1) XXX_OneofWrappers() []any {
	return []any{}
}

type S44M2 struct {
	F37              map[int64]*S44M3 `protobuf:"bytes,37,rep,name=f37,proto3" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	Canary0          uint8
	XXX_unrecognized []byte `json:"-"`
}

func (*S44M2) XXX_OneofWrappers() []any {
	return []any{}
}

type S44M3 struct {
	F2            map[int64]bool `protobuf:"bytes,2,rep,name=f2,json=jf2" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf2,omitempty"`
	unknownFields *[]byte
}

func (*S44M3) XXX_OneofWrappers() []any {
	return []any{}
}

type S44M4 struct {
	F4            uint32 `protobuf:"fixed32,4,opt,name=f4,proto3"`
	F12           int32  `protobuf:"zigzag32,12,opt,proto3"`
	unknownFields *[]byte
}

func (*S44M4) XXX_OneofWrappers() []any {
	return []any{}
}

type S45M1 struct {
	F12     map[int32]int64 `protobuf:"bytes,12,rep" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	O0      isS45M1_O0      `protobuf_oneof:"o0"`
	F13     *S45M3          `protobuf:"bytes,13,opt,name=f13,proto3"`
	F11     *S45M5          `protobuf:"bytes,11,opt,name=f11,json=jf11" json:"jf11,omitempty"`
	Canary4 string
}

type isS45M1_O0 interface{ isS45M1_O0() }

func (*S45M1) XXX_OneofWrappers() []any {
	return []any{(*S45M1_F14)(nil), (*S45M1_F6)(nil)}
}

type S45M1_F14 struct {
	F14 *S45M2 `protobuf:"bytes,14,opt,name=f14,json=jf14,oneof" json:"jf14,omitempty"`
}

func (*S45M1_F14) isS45M1_O0() {}

type S45M1_F6 struct {
	F6 int64 `protobuf:"varint,6,opt,oneof"`
}

func (*S45M1_F6) isS45M1_O0() {}

type S45M2 struct {
	F24              float64           `protobuf:"fixed64,24,opt,proto3"`
	F3               float64           `protobuf:"fixed64,3,opt,proto3"`
	F36              []int32           `protobuf:"zigzag32,36,rep,packed"`
	F999             map[string]uint32 `protobuf:"bytes,999,rep" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	Canary3          string
	F536870911       *int32 `protobuf:"fixed32,536870911,opt,name=f536870911,proto3,oneof"`
	XXX_unrecognized []byte `json:"-"`
}

func (*S45M2) XXX_OneofWrappers() []any {
	return []any{}
}

type S45M3 struct {
	O0               isS45M3_O0       `protobuf_oneof:"o0"`
	F16              map[int32]uint32 `protobuf:"bytes,16,rep,name=f16,proto3" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	XXX_unrecognized *[]byte          `json:"-"`
}

type isS45M3_O0 interface{ isS45M3_O0() }

func (*S45M3) XXX_OneofWrappers() []any {
	return []any{(*S45M3_F15)(nil)}
}

type S45M3_F15 struct {
	F15 *S45M4 `protobuf:"bytes,15,opt,oneof"`
}

func (*S45M3_F15) isS45M3_O0() {}

type S45M4 struct {
	F36           uint64 `protobuf:"varint,36,opt,proto3"`
	F293          int32  `protobuf:"varint,293,opt,name=f293,json=jf293,proto3" json:"jf293,omitempty"`
	Canary1       string
	F15           *float64         `protobuf:"fixed64,15,opt"`
	F8            *int32           `protobuf:"fixed32,8,opt,name=f8,json=jf8,def=42" json:"jf8,omitempty"`
	O0            isS45M4_O0       `protobuf_oneof:"o0"`
	F25           map[int64]int64  `protobuf:"bytes,25,rep,name=f25,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F12           []uint32         `protobuf:"varint,12,rep"`
	F3            *string          `protobuf:"bytes,3,opt"`
	F4            map[int32]string `protobuf:"bytes,4,rep,name=f4,proto3" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	Canary8       uint64
	unknownFields *[]byte
}

type isS45M4_O0 interface{ isS45M4_O0() }

func (*S45M4) XXX_OneofWrappers() []any {
	return []any{(*S45M4_F35)(nil)}
}

type S45M4_F35 struct {
	F35 uint32 `protobuf:"fixed32,35,opt,name=f35,json=jf35,oneof" json:"jf35,omitempty"`
}

func (*S45M4_F35) isS45M4_O0() {}

type S45M5 struct {
	O0               isS45M5_O0 `protobuf_oneof:"o0"`
	F5               *float64   `protobuf:"fixed64,5,opt,name=f5,json=jf5,def=42" json:"jf5,omitempty"`
	O1               isS45M5_O1 `protobuf_oneof:"o1"`
	F8               uint64     `protobuf:"fixed64,8,opt,name=f8,json=jf8,proto3" json:"jf8,omitempty"`
	F33554431        *int64     `protobuf:"fixed64,33554431,opt,name=f33554431,proto3,oneof"`
	F2               *string    `protobuf:"bytes,2,opt,name=f2,json=jf2,def=a,7,rep,packed,b" json:"jf2,omitempty"`
	F33              []int32    `protobuf:"zigzag32,33,rep,packed"`
	Canary7          uint64
	XXX_unrecognized []byte `json:"-"`
}

type isS45M5_O0 interface{ isS45M5_O0() }

type isS45M5_O1 interface{ isS45M5_O1() }

func (*S45M5) XXX_OneofWrappers() []any {
	return []any{(*S45M5_F29)(nil), (*S45M5_F1003)(nil), (*S45M5_F6)(nil)}
}

type S45M5_F29 struct {
	F29 int32 `protobuf:"fixed32,29,opt,name=f29,json=jf29,oneof" json:"jf29,omitempty"`
}

func (*S45M5_F29) isS45M5_O0() {}

type S45M5_F1003 struct {
	F1003 int32 `protobuf:"varint,1003,opt,name=f1003,proto3,oneof"`
}

func (*S45M5_F1003) isS45M5_O1() {}

type S45M5_F6 struct {
	F6 *S45M6 `protobuf:"bytes,6,opt,oneof"`
}

func (*S45M5_F6) isS45M5_O1() {}

type S45M6 struct {
	F29           []byte `protobuf:"bytes,29,opt,name=f29,json=jf29,proto3" json:"jf29,omitempty"`
	F425          int32  `protobuf:"fixed32,425,opt,name=f425,json=jf425,proto3" json:"jf425,omitempty"`
	unknownFields []byte
}

func (*S45M6) XXX_OneofWrappers() []any {
	return []any{}
}

type S46M1 struct {
	F3            map[uint32]uint32 `protobuf:"bytes,3,rep" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F4            S46M2             `protobuf:"bytes,4,opt,name=f4,proto3"`
	F2047         int32             `protobuf:"varint,2047,opt,name=f2047,proto3"`
	F15           []float64         `protobuf:"fixed64,15,rep,packed"`
	F262143       map[int32]bool    `protobuf:"bytes,262143,rep" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F77570723     *int32            `protobuf:"fixed32,77570723,opt,name=f77570723,json=jf77570723,def=42" json:"jf77570723,omitempty"`
	Canary5       uint64
	F5            *int32           `protobuf:"varint,5,opt,name=f5,json=jf5,def=42" json:"jf5,omitempty"`
	F40           *float32         `protobuf:"fixed32,40,req,name=f40"`
	F16           map[bool]string  `protobuf:"bytes,16,rep,name=f16,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F6            map[uint32]int64 `protobuf:"bytes,6,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	unknownFields *[]byte
}

func (*S46M1) XXX_OneofWrappers() []any {
	return []any{}
}

type S46M2 struct {
	O0               isS46M2_O0 `protobuf_oneof:"o0"`
	F999             *int64     `protobuf:"varint,999,opt"`
	F4               *S46M4     `protobuf:"bytes,4,opt,name=f4,proto3"`
	F249548881       [][]byte   `protobuf:"bytes,249548881,rep,name=f249548881,proto3"`
	F86560497        *uint64    `protobuf:"fixed64,86560497,req"`
	Canary4          uint64
	F140             uint64  `protobuf:"varint,140,opt,name=f140,json=jf140,proto3" json:"jf140,omitempty"`
	XXX_unrecognized *[]byte `json:"-"`
}

type isS46M2_O0 interface{ isS46M2_O0() }

func (*S46M2) XXX_OneofWrappers() []any {
	return []any{(*S46M2_F14)(nil)}
}

type S46M2_F14 struct {
	F14 *S46M3 `protobuf:"bytes,14,opt,name=f14,json=jf14,oneof" json:"jf14,omitempty"`
}

func (*S46M2_F14) isS46M2_O0() {}

type S46M3 struct {
	F998      map[int64]uint32 `protobuf:"bytes,998,rep,name=f998,json=jf998" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value" json:"jf998,omitempty"`
	F520      sch.E            `protobuf:"varint,520,opt,name=f520,proto3,enum=t.E"`
	O0        isS46M3_O0       `protobuf_oneof:"o0"`
	F9        int64            `protobuf:"fixed64,9,opt,proto3"`
	Canary3   uint64
	F2048     uint32           `protobuf:"varint,2048,opt,name=f2048,json=jf2048,proto3" json:"jf2048,omitempty"`
	F76472703 *int64           `protobuf:"zigzag64,76472703,opt"`
	F5        map[int32][]byte `protobuf:"bytes,5,rep,name=f5,json=jf5" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value" json:"jf5,omitempty"`
	F18999    []float64        `protobuf:"fixed64,18999,rep"`
}

type isS46M3_O0 interface{ isS46M3_O0() }

func (*S46M3) XXX_OneofWrappers() []any {
	return []any{(*S46M3_F33)(nil)}
}

type S46M3_F33 struct {
	F33 uint32 `protobuf:"fixed32,33,opt,oneof"`
}

func (*S46M3_F33) isS46M3_O0() {}

type S46M4 struct {
	O0            isS46M4_O0        `protobuf_oneof:"o0"`
	F11           map[string]int64  `protobuf:"bytes,11,rep,name=f11,json=jf11" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf11,omitempty"`
	F7            []float64         `protobuf:"fixed64,7,rep,name=f7,proto3"`
	F8            *int32            `protobuf:"varint,8,opt,name=f8,json=jf8,def=42" json:"jf8,omitempty"`
	F10           *sch.E            `protobuf:"varint,10,opt,name=f10,proto3,enum=t.E,oneof"`
	F27           map[bool]int64    `protobuf:"bytes,27,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F997          map[int64]int32   `protobuf:"bytes,997,rep,name=f997,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F4            map[int64]float64 `protobuf:"bytes,4,rep,name=f4,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	Canary9       [3]byte
	unknownFields []byte
}

type isS46M4_O0 interface{ isS46M4_O0() }

func (*S46M4) XXX_OneofWrappers() []any {
	return []any{(*S46M4_F15)(nil), (*S46M4_F33554431)(nil), (*S46M4_F17)(nil)}
}

type S46M4_F15 struct {
	F15 float64 `protobuf:"fixed64,15,opt,oneof"`
}

func (*S46M4_F15) isS46M4_O0() {}

type S46M4_F33554431 struct {
	F33554431 int64 `protobuf:"zigzag64,33554431,opt,name=f33554431,proto3,oneof"`
}

func (*S46M4_F33554431) isS46M4_O0() {}

type S46M4_F17 struct {
	F17 uint32 `protobuf:"varint,17,opt,name=f17,json=jf17,oneof" json:"jf17,omitempty"`
}

func (*S46M4_F17) isS46M4_O0() {}

type S47M1 struct {
	F36 []int64 `protobuf:"varint,36,rep,packed"`
}

func (*S47M1) XXX_OneofWrappers() []any {
	return []any{}
}

type Rec struct {
	F1            *Rec `protobuf:"bytes,1,opt,name=f1,proto3"`
	Canary0       uint64
	F2            []*Rec          `protobuf:"bytes,2,rep,name=f2,json=jf2" json:"jf2,omitempty"`
	F3            map[string]*Rec `protobuf:"bytes,3,rep" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F4            map[int32]*Rec  `protobuf:"bytes,4,rep,name=f4,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F5            map[uint64]*Rec `protobuf:"bytes,5,rep,name=f5,json=jf5" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value" json:"jf5,omitempty"`
	F6            map[bool]*Rec   `protobuf:"bytes,6,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	O0            isRec_O0        `protobuf_oneof:"o0"`
	F9            int32           `protobuf:"varint,9,opt,proto3"`
	F10           *string         `protobuf:"bytes,10,opt,name=f10,proto3,oneof"`
	F11           [][]byte        `protobuf:"bytes,11,rep,name=f11,json=jf11" json:"jf11,omitempty"`
	unknownFields []byte
}

type isRec_O0 interface{ isRec_O0() }

func (*Rec) XXX_OneofWrappers() []any {
	return []any{(*Rec_F7)(nil), (*Rec_F8)(nil)}
}

type Rec_F7 struct {
	F7 *Rec `protobuf:"bytes,7,opt,name=f7,proto3,oneof"`
}

func (*Rec_F7) isRec_O0() {}

type Rec_F8 struct {
	F8 int32 `protobuf:"varint,8,opt,name=f8,json=jf8,oneof" json:"jf8,omitempty"`
}

func (*Rec_F8) isRec_O0() {}

type MutA struct {
	F1            *MutB   `protobuf:"bytes,1,opt,name=f1,proto3"`
	F2            []int64 `protobuf:"zigzag64,2,rep,packed,name=f2,json=jf2" json:"jf2,omitempty"`
	F3            []*MutA `protobuf:"bytes,3,rep"`
	unknownFields *[]byte
}

func (*MutA) XXX_OneofWrappers() []any {
	return []any{}
}

type MutB struct {
	F1 *MutA           `protobuf:"bytes,1,opt,name=f1,proto3"`
	F2 map[int32]*MutA `protobuf:"bytes,2,rep,name=f2,json=jf2" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value" json:"jf2,omitempty"`
	F3 float64         `protobuf:"fixed64,3,opt,proto3"`
}

func (*MutB) XXX_OneofWrappers() []any {
	return []any{}
}

type AllImplicit struct {
	F1               int32  `protobuf:"varint,1,opt,name=f1,proto3"`
	F2               int64  `protobuf:"varint,2,opt,name=f2,json=jf2,proto3" json:"jf2,omitempty"`
	F3               uint32 `protobuf:"varint,3,opt,proto3"`
	F4               uint64 `protobuf:"varint,4,opt,name=f4,proto3"`
	F5               int32  `protobuf:"zigzag32,5,opt,name=f5,json=jf5,proto3" json:"jf5,omitempty"`
	Canary4          [3]byte
	F6               int64   `protobuf:"zigzag64,6,opt,proto3"`
	F7               uint32  `protobuf:"fixed32,7,opt,name=f7,proto3"`
	F8               uint64  `protobuf:"fixed64,8,opt,name=f8,json=jf8,proto3" json:"jf8,omitempty"`
	F9               int32   `protobuf:"fixed32,9,opt,proto3"`
	F10              int64   `protobuf:"fixed64,10,opt,name=f10,proto3"`
	F11              float32 `protobuf:"fixed32,11,opt,name=f11,json=jf11,proto3" json:"jf11,omitempty"`
	F12              float64 `protobuf:"fixed64,12,opt,proto3"`
	Canary11         uint8
	F13              bool   `protobuf:"varint,13,opt,name=f13,proto3"`
	F14              sch.E  `protobuf:"varint,14,opt,name=f14,json=jf14,proto3,enum=t.E" json:"jf14,omitempty"`
	F15              string `protobuf:"bytes,15,opt,proto3"`
	F16              []byte `protobuf:"bytes,16,opt,name=f16,proto3"`
	XXX_unrecognized []byte `json:"-"`
}

func (*AllImplicit) XXX_OneofWrappers() []any {
	return []any{}
}

type AllExplicit struct {
	F1               *int32  `protobuf:"varint,1,opt,name=f1,proto3,oneof"`
	F2               *int64  `protobuf:"varint,2,opt,name=f2,json=jf2,def=42" json:"jf2,omitempty"`
	F3               *uint32 `protobuf:"varint,3,opt"`
	F4               *uint64 `protobuf:"varint,4,opt,name=f4,proto3,oneof"`
	Canary3          [3]byte
	F5               *int32   `protobuf:"zigzag32,5,opt,name=f5,json=jf5,def=42" json:"jf5,omitempty"`
	F6               *int64   `protobuf:"zigzag64,6,opt"`
	F7               *uint32  `protobuf:"fixed32,7,opt,name=f7,proto3,oneof"`
	F8               *uint64  `protobuf:"fixed64,8,opt,name=f8,json=jf8,def=42" json:"jf8,omitempty"`
	F9               *int32   `protobuf:"fixed32,9,opt"`
	F10              *int64   `protobuf:"fixed64,10,opt,name=f10,proto3,oneof"`
	F11              *float32 `protobuf:"fixed32,11,opt,name=f11,json=jf11,def=42" json:"jf11,omitempty"`
	Canary10         uint8
	F12              *float64 `protobuf:"fixed64,12,opt"`
	F13              *bool    `protobuf:"varint,13,opt,name=f13,proto3,oneof"`
	F14              *sch.E   `protobuf:"varint,14,opt,name=f14,json=jf14,enum=t.E,def=1" json:"jf14,omitempty"`
	F15              *string  `protobuf:"bytes,15,opt"`
	F16              []byte   `protobuf:"bytes,16,opt,name=f16,proto3,oneof"`
	XXX_unrecognized []byte   `json:"-"`
}

func (*AllExplicit) XXX_OneofWrappers() []any {
	return []any{}
}

type AllRepeated struct {
	F1               []int32 `protobuf:"varint,1,rep,packed,name=f1,proto3"`
	F2               []int32 `protobuf:"varint,2,rep,name=f2,json=jf2" json:"jf2,omitempty"`
	F3               []int64 `protobuf:"varint,3,rep,packed"`
	Canary2          [3]byte
	F4               []int64  `protobuf:"varint,4,rep,name=f4,proto3"`
	F5               []uint32 `protobuf:"varint,5,rep,packed,name=f5,json=jf5" json:"jf5,omitempty"`
	F6               []uint32 `protobuf:"varint,6,rep"`
	F7               []uint64 `protobuf:"varint,7,rep,packed,name=f7,proto3"`
	F8               []uint64 `protobuf:"varint,8,rep,name=f8,json=jf8" json:"jf8,omitempty"`
	F9               []int32  `protobuf:"zigzag32,9,rep,packed"`
	F10              []int32  `protobuf:"zigzag32,10,rep,name=f10,proto3"`
	Canary9          uint8
	F11              []int64  `protobuf:"zigzag64,11,rep,packed,name=f11,json=jf11" json:"jf11,omitempty"`
	F12              []int64  `protobuf:"zigzag64,12,rep"`
	F13              []uint32 `protobuf:"fixed32,13,rep,packed,name=f13,proto3"`
	F14              []uint32 `protobuf:"fixed32,14,rep,name=f14,json=jf14" json:"jf14,omitempty"`
	F15              []uint64 `protobuf:"fixed64,15,rep,packed"`
	F16              []uint64 `protobuf:"fixed64,16,rep,name=f16,proto3"`
	F17              []int32  `protobuf:"fixed32,17,rep,packed,name=f17,json=jf17" json:"jf17,omitempty"`
	Canary16         string
	F18              []int32   `protobuf:"fixed32,18,rep"`
	F19              []int64   `protobuf:"fixed64,19,rep,packed,name=f19,proto3"`
	F20              []int64   `protobuf:"fixed64,20,rep,name=f20,json=jf20" json:"jf20,omitempty"`
	F21              []float32 `protobuf:"fixed32,21,rep,packed"`
	F22              []float32 `protobuf:"fixed32,22,rep,name=f22,proto3"`
	F23              []float64 `protobuf:"fixed64,23,rep,packed,name=f23,json=jf23" json:"jf23,omitempty"`
	F24              []float64 `protobuf:"fixed64,24,rep"`
	Canary23         uint64
	F25              []bool   `protobuf:"varint,25,rep,packed,name=f25,proto3"`
	F26              []bool   `protobuf:"varint,26,rep,name=f26,json=jf26" json:"jf26,omitempty"`
	F27              []sch.E  `protobuf:"varint,27,rep,packed"`
	F28              []sch.E  `protobuf:"varint,28,rep,name=f28,proto3,enum=t.E"`
	F29              []string `protobuf:"bytes,29,rep,name=f29,json=jf29" json:"jf29,omitempty"`
	F30              [][]byte `protobuf:"bytes,30,rep"`
	XXX_unrecognized []byte   `json:"-"`
}

func (*AllRepeated) XXX_OneofWrappers() []any {
	return []any{}
}

type AllOneof struct {
	O0               isAllOneof_O0  `protobuf_oneof:"o0"`
	O1               isAllOneof_O1  `protobuf_oneof:"o1"`
	O2               isAllOneof_O2  `protobuf_oneof:"o2"`
	O3               isAllOneof_O3  `protobuf_oneof:"o3"`
	O4               isAllOneof_O4  `protobuf_oneof:"o4"`
	O5               isAllOneof_O5  `protobuf_oneof:"o5"`
	O6               isAllOneof_O6  `protobuf_oneof:"o6"`
	O7               isAllOneof_O7  `protobuf_oneof:"o7"`
	O8               isAllOneof_O8  `protobuf_oneof:"o8"`
	O9               isAllOneof_O9  `protobuf_oneof:"o9"`
	O10              isAllOneof_O10 `protobuf_oneof:"o10"`
	O11              isAllOneof_O11 `protobuf_oneof:"o11"`
	O12              isAllOneof_O12 `protobuf_oneof:"o12"`
	O13              isAllOneof_O13 `protobuf_oneof:"o13"`
	O14              isAllOneof_O14 `protobuf_oneof:"o14"`
	O15              isAllOneof_O15 `protobuf_oneof:"o15"`
	XXX_unrecognized []byte         `json:"-"`
}

type isAllOneof_O0 interface{ isAllOneof_O0() }

type isAllOneof_O1 interface{ isAllOneof_O1() }

type isAllOneof_O2 interface{ isAllOneof_O2() }

type isAllOneof_O3 interface{ isAllOneof_O3() }

type isAllOneof_O4 interface{ isAllOneof_O4() }

type isAllOneof_O5 interface{ isAllOneof_O5() }

type isAllOneof_O6 interface{ isAllOneof_O6() }

type isAllOneof_O7 interface{ isAllOneof_O7() }

type isAllOneof_O8 interface{ isAllOneof_O8() }

type isAllOneof_O9 interface{ isAllOneof_O9() }

type isAllOneof_O10 interface{ isAllOneof_O10() }

type isAllOneof_O11 interface{ isAllOneof_O11() }

type isAllOneof_O12 interface{ isAllOneof_O12() }

type isAllOneof_O13 interface{ isAllOneof_O13() }

type isAllOneof_O14 interface{ isAllOneof_O14() }

type isAllOneof_O15 interface{ isAllOneof_O15() }

func (*AllOneof) XXX_OneofWrappers() []any {
	return []any{(*AllOneof_F1)(nil), (*AllOneof_F2)(nil), (*AllOneof_F3)(nil), (*AllOneof_F4)(nil), (*AllOneof_F5)(nil), (*AllOneof_F6)(nil), (*AllOneof_F7)(nil), (*AllOneof_F8)(nil), (*AllOneof_F9)(nil), (*AllOneof_F10)(nil), (*AllOneof_F11)(nil), (*AllOneof_F12)(nil), (*AllOneof_F13)(nil), (*AllOneof_F14)(nil), (*AllOneof_F15)(nil), (*AllOneof_F16)(nil), (*AllOneof_F17)(nil), (*AllOneof_F18)(nil), (*AllOneof_F19)(nil), (*AllOneof_F20)(nil), (*AllOneof_F21)(nil), (*AllOneof_F22)(nil), (*AllOneof_F23)(nil), (*AllOneof_F24)(nil), (*AllOneof_F25)(nil), (*AllOneof_F26)(nil), (*AllOneof_F27)(nil), (*AllOneof_F28)(nil), (*AllOneof_F29)(nil), (*AllOneof_F30)(nil), (*AllOneof_F31)(nil), (*AllOneof_F32)(nil)}
}

type AllOneof_F1 struct {
	F1 int32 `protobuf:"varint,1,opt,name=f1,proto3,oneof"`
}

func (*AllOneof_F1) isAllOneof_O0() {}

type AllOneof_F2 struct {
	F2 string `protobuf:"bytes,2,opt,name=f2,json=jf2,oneof" json:"jf2,omitempty"`
}

func (*AllOneof_F2) isAllOneof_O0() {}

type AllOneof_F3 struct {
	F3 int64 `protobuf:"varint,3,opt,oneof"`
}

func (*AllOneof_F3) isAllOneof_O1() {}

type AllOneof_F4 struct {
	F4 string `protobuf:"bytes,4,opt,name=f4,proto3,oneof"`
}

func (*AllOneof_F4) isAllOneof_O1() {}

type AllOneof_F5 struct {
	F5 uint32 `protobuf:"varint,5,opt,name=f5,json=jf5,oneof" json:"jf5,omitempty"`
}

func (*AllOneof_F5) isAllOneof_O2() {}

type AllOneof_F6 struct {
	F6 string `protobuf:"bytes,6,opt,oneof"`
}

func (*AllOneof_F6) isAllOneof_O2() {}

type AllOneof_F7 struct {
	F7 uint64 `protobuf:"varint,7,opt,name=f7,proto3,oneof"`
}

func (*AllOneof_F7) isAllOneof_O3() {}

type AllOneof_F8 struct {
	F8 string `protobuf:"bytes,8,opt,name=f8,json=jf8,oneof" json:"jf8,omitempty"`
}

func (*AllOneof_F8) isAllOneof_O3() {}

type AllOneof_F9 struct {
	F9 int32 `protobuf:"zigzag32,9,opt,oneof"`
}

func (*AllOneof_F9) isAllOneof_O4() {}

type AllOneof_F10 struct {
	F10 string `protobuf:"bytes,10,opt,name=f10,proto3,oneof"`
}

func (*AllOneof_F10) isAllOneof_O4() {}

type AllOneof_F11 struct {
	F11 int64 `protobuf:"zigzag64,11,opt,name=f11,json=jf11,oneof" json:"jf11,omitempty"`
}

func (*AllOneof_F11) isAllOneof_O5() {}

type AllOneof_F12 struct {
	F12 string `protobuf:"bytes,12,opt,oneof"`
}

func (*AllOneof_F12) isAllOneof_O5() {}

type AllOneof_F13 struct {
	F13 uint32 `protobuf:"fixed32,13,opt,name=f13,proto3,oneof"`
}

func (*AllOneof_F13) isAllOneof_O6() {}

type AllOneof_F14 struct {
	F14 string `protobuf:"bytes,14,opt,name=f14,json=jf14,oneof" json:"jf14,omitempty"`
}

func (*AllOneof_F14) isAllOneof_O6() {}

type AllOneof_F15 struct {
	F15 uint64 `protobuf:"fixed64,15,opt,oneof"`
}

func (*AllOneof_F15) isAllOneof_O7() {}

type AllOneof_F16 struct {
	F16 string `protobuf:"bytes,16,opt,name=f16,proto3,oneof"`
}

func (*AllOneof_F16) isAllOneof_O7() {}

type AllOneof_F17 struct {
	F17 int32 `protobuf:"fixed32,17,opt,name=f17,json=jf17,oneof" json:"jf17,omitempty"`
}

func (*AllOneof_F17) isAllOneof_O8() {}

type AllOneof_F18 struct {
	F18 string `protobuf:"bytes,18,opt,oneof"`
}

func (*AllOneof_F18) isAllOneof_O8() {}

type AllOneof_F19 struct {
	F19 int64 `protobuf:"fixed64,19,opt,name=f19,proto3,oneof"`
}

func (*AllOneof_F19) isAllOneof_O9() {}

type AllOneof_F20 struct {
	F20 string `protobuf:"bytes,20,opt,name=f20,json=jf20,oneof" json:"jf20,omitempty"`
}

func (*AllOneof_F20) isAllOneof_O9() {}

type AllOneof_F21 struct {
	F21 float32 `protobuf:"fixed32,21,opt,oneof"`
}

func (*AllOneof_F21) isAllOneof_O10() {}

type AllOneof_F22 struct {
	F22 string `protobuf:"bytes,22,opt,name=f22,proto3,oneof"`
}

func (*AllOneof_F22) isAllOneof_O10() {}

type AllOneof_F23 struct {
	F23 float64 `protobuf:"fixed64,23,opt,name=f23,json=jf23,oneof" json:"jf23,omitempty"`
}

func (*AllOneof_F23) isAllOneof_O11() {}

type AllOneof_F24 struct {
	F24 string `protobuf:"bytes,24,opt,oneof"`
}

func (*AllOneof_F24) isAllOneof_O11() {}

type AllOneof_F25 struct {
	F25 bool `protobuf:"varint,25,opt,name=f25,proto3,oneof"`
}

func (*AllOneof_F25) isAllOneof_O12() {}

type AllOneof_F26 struct {
	F26 string `protobuf:"bytes,26,opt,name=f26,json=jf26,oneof" json:"jf26,omitempty"`
}

func (*AllOneof_F26) isAllOneof_O12() {}

type AllOneof_F27 struct {
	F27 sch.E `protobuf:"varint,27,opt,oneof"`
}

func (*AllOneof_F27) isAllOneof_O13() {}

type AllOneof_F28 struct {
	F28 string `protobuf:"bytes,28,opt,name=f28,proto3,oneof"`
}

func (*AllOneof_F28) isAllOneof_O13() {}

type AllOneof_F29 struct {
	F29 string `protobuf:"bytes,29,opt,name=f29,json=jf29,oneof" json:"jf29,omitempty"`
}

func (*AllOneof_F29) isAllOneof_O14() {}

type AllOneof_F30 struct {
	F30 string `protobuf:"bytes,30,opt,oneof"`
}

func (*AllOneof_F30) isAllOneof_O14() {}

type AllOneof_F31 struct {
	F31 []byte `protobuf:"bytes,31,opt,name=f31,proto3,oneof"`
}

func (*AllOneof_F31) isAllOneof_O15() {}

type AllOneof_F32 struct {
	F32 string `protobuf:"bytes,32,opt,name=f32,json=jf32,oneof" json:"jf32,omitempty"`
}

func (*AllOneof_F32) isAllOneof_O15() {}

type Maps0 struct {
	F1               map[int32]int32 `protobuf:"bytes,1,rep,name=f1,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	Canary0          [3]byte
	F2               map[int32]int64  `protobuf:"bytes,2,rep,name=f2,json=jf2" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf2,omitempty"`
	F3               map[int32]uint32 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F4               map[int32]uint64 `protobuf:"bytes,4,rep,name=f4,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F5               map[int32]int32  `protobuf:"bytes,5,rep,name=f5,json=jf5" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value" json:"jf5,omitempty"`
	F6               map[int32]int64  `protobuf:"bytes,6,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	F7               map[int32]uint32 `protobuf:"bytes,7,rep,name=f7,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F8               map[int32]uint64 `protobuf:"bytes,8,rep,name=f8,json=jf8" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value" json:"jf8,omitempty"`
	Canary7          uint8
	F9               map[int32]int32   `protobuf:"bytes,9,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F10              map[int32]int64   `protobuf:"bytes,10,rep,name=f10,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F11              map[int32]float32 `protobuf:"bytes,11,rep,name=f11,json=jf11" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value" json:"jf11,omitempty"`
	F12              map[int32]float64 `protobuf:"bytes,12,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F13              map[int32]bool    `protobuf:"bytes,13,rep,name=f13,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F14              map[int32]sch.E   `protobuf:"bytes,14,rep,name=f14,json=jf14" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf14,omitempty"`
	F15              map[int32]string  `protobuf:"bytes,15,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	Canary14         string
	F16              map[int32][]byte `protobuf:"bytes,16,rep,name=f16,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F17              map[int32]*Leaf  `protobuf:"bytes,17,rep,name=f17,json=jf17" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value" json:"jf17,omitempty"`
	F18              map[int32]Leaf   `protobuf:"bytes,18,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	XXX_unrecognized *[]byte          `json:"-"`
}

func (*Maps0) XXX_OneofWrappers() []any {
	return []any{}
}

type Leaf struct {
	F1            int32    `protobuf:"varint,1,opt,name=f1,proto3"`
	F2            []string `protobuf:"bytes,2,rep,name=f2,json=jf2" json:"jf2,omitempty"`
	unknownFields []byte
}

func (*Leaf) XXX_OneofWrappers() []any {
	return []any{}
}

type Maps1 struct {
	F1               map[int64]int32  `protobuf:"bytes,1,rep,name=f1,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F2               map[int64]int64  `protobuf:"bytes,2,rep,name=f2,json=jf2" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf2,omitempty"`
	F3               map[int64]uint32 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F4               map[int64]uint64 `protobuf:"bytes,4,rep,name=f4,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F5               map[int64]int32  `protobuf:"bytes,5,rep,name=f5,json=jf5" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value" json:"jf5,omitempty"`
	F6               map[int64]int64  `protobuf:"bytes,6,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	Canary5          uint8
	F7               map[int64]uint32  `protobuf:"bytes,7,rep,name=f7,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F8               map[int64]uint64  `protobuf:"bytes,8,rep,name=f8,json=jf8" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value" json:"jf8,omitempty"`
	F9               map[int64]int32   `protobuf:"bytes,9,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F10              map[int64]int64   `protobuf:"bytes,10,rep,name=f10,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F11              map[int64]float32 `protobuf:"bytes,11,rep,name=f11,json=jf11" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value" json:"jf11,omitempty"`
	F12              map[int64]float64 `protobuf:"bytes,12,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F13              map[int64]bool    `protobuf:"bytes,13,rep,name=f13,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	Canary12         string
	F14              map[int64]sch.E  `protobuf:"bytes,14,rep,name=f14,json=jf14" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf14,omitempty"`
	F15              map[int64]string `protobuf:"bytes,15,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F16              map[int64][]byte `protobuf:"bytes,16,rep,name=f16,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F17              map[int64]*Leaf  `protobuf:"bytes,17,rep,name=f17,json=jf17" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value" json:"jf17,omitempty"`
	F18              map[int64]Leaf   `protobuf:"bytes,18,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	XXX_unrecognized *[]byte          `json:"-"`
}

func (*Maps1) XXX_OneofWrappers() []any {
	return []any{}
}

type Maps2 struct {
	F1               map[uint32]int32  `protobuf:"bytes,1,rep,name=f1,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F2               map[uint32]int64  `protobuf:"bytes,2,rep,name=f2,json=jf2" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf2,omitempty"`
	F3               map[uint32]uint32 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F4               map[uint32]uint64 `protobuf:"bytes,4,rep,name=f4,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F5               map[uint32]int32  `protobuf:"bytes,5,rep,name=f5,json=jf5" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value" json:"jf5,omitempty"`
	Canary4          uint8
	F6               map[uint32]int64   `protobuf:"bytes,6,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	F7               map[uint32]uint32  `protobuf:"bytes,7,rep,name=f7,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F8               map[uint32]uint64  `protobuf:"bytes,8,rep,name=f8,json=jf8" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value" json:"jf8,omitempty"`
	F9               map[uint32]int32   `protobuf:"bytes,9,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F10              map[uint32]int64   `protobuf:"bytes,10,rep,name=f10,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F11              map[uint32]float32 `protobuf:"bytes,11,rep,name=f11,json=jf11" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value" json:"jf11,omitempty"`
	F12              map[uint32]float64 `protobuf:"bytes,12,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	Canary11         string
	F13              map[uint32]bool   `protobuf:"bytes,13,rep,name=f13,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F14              map[uint32]sch.E  `protobuf:"bytes,14,rep,name=f14,json=jf14" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf14,omitempty"`
	F15              map[uint32]string `protobuf:"bytes,15,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F16              map[uint32][]byte `protobuf:"bytes,16,rep,name=f16,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F17              map[uint32]*Leaf  `protobuf:"bytes,17,rep,name=f17,json=jf17" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value" json:"jf17,omitempty"`
	F18              map[uint32]Leaf   `protobuf:"bytes,18,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	XXX_unrecognized *[]byte           `json:"-"`
}

func (*Maps2) XXX_OneofWrappers() []any {
	return []any{}
}

type Maps3 struct {
	F1               map[uint64]int32  `protobuf:"bytes,1,rep,name=f1,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F2               map[uint64]int64  `protobuf:"bytes,2,rep,name=f2,json=jf2" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf2,omitempty"`
	F3               map[uint64]uint32 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F4               map[uint64]uint64 `protobuf:"bytes,4,rep,name=f4,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	Canary3          uint8
	F5               map[uint64]int32   `protobuf:"bytes,5,rep,name=f5,json=jf5" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value" json:"jf5,omitempty"`
	F6               map[uint64]int64   `protobuf:"bytes,6,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	F7               map[uint64]uint32  `protobuf:"bytes,7,rep,name=f7,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F8               map[uint64]uint64  `protobuf:"bytes,8,rep,name=f8,json=jf8" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value" json:"jf8,omitempty"`
	F9               map[uint64]int32   `protobuf:"bytes,9,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F10              map[uint64]int64   `protobuf:"bytes,10,rep,name=f10,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F11              map[uint64]float32 `protobuf:"bytes,11,rep,name=f11,json=jf11" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value" json:"jf11,omitempty"`
	Canary10         string
	F12              map[uint64]float64 `protobuf:"bytes,12,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F13              map[uint64]bool    `protobuf:"bytes,13,rep,name=f13,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F14              map[uint64]sch.E   `protobuf:"bytes,14,rep,name=f14,json=jf14" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf14,omitempty"`
	F15              map[uint64]string  `protobuf:"bytes,15,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F16              map[uint64][]byte  `protobuf:"bytes,16,rep,name=f16,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F17              map[uint64]*Leaf   `protobuf:"bytes,17,rep,name=f17,json=jf17" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value" json:"jf17,omitempty"`
	F18              map[uint64]Leaf    `protobuf:"bytes,18,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	Canary17         uint64
	XXX_unrecognized *[]byte `json:"-"`
}

func (*Maps3) XXX_OneofWrappers() []any {
	return []any{}
}

type Maps4 struct {
	F1               map[int32]int32  `protobuf:"bytes,1,rep,name=f1,proto3" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F2               map[int32]int64  `protobuf:"bytes,2,rep,name=f2,json=jf2" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf2,omitempty"`
	F3               map[int32]uint32 `protobuf:"bytes,3,rep" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	Canary2          uint8
	F4               map[int32]uint64 `protobuf:"bytes,4,rep,name=f4,proto3" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F5               map[int32]int32  `protobuf:"bytes,5,rep,name=f5,json=jf5" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value" json:"jf5,omitempty"`
	F6               map[int32]int64  `protobuf:"bytes,6,rep" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	F7               map[int32]uint32 `protobuf:"bytes,7,rep,name=f7,proto3" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F8               map[int32]uint64 `protobuf:"bytes,8,rep,name=f8,json=jf8" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value" json:"jf8,omitempty"`
	F9               map[int32]int32  `protobuf:"bytes,9,rep" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F10              map[int32]int64  `protobuf:"bytes,10,rep,name=f10,proto3" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	Canary9          string
	F11              map[int32]float32 `protobuf:"bytes,11,rep,name=f11,json=jf11" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value" json:"jf11,omitempty"`
	F12              map[int32]float64 `protobuf:"bytes,12,rep" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F13              map[int32]bool    `protobuf:"bytes,13,rep,name=f13,proto3" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F14              map[int32]sch.E   `protobuf:"bytes,14,rep,name=f14,json=jf14" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf14,omitempty"`
	F15              map[int32]string  `protobuf:"bytes,15,rep" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F16              map[int32][]byte  `protobuf:"bytes,16,rep,name=f16,proto3" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F17              map[int32]*Leaf   `protobuf:"bytes,17,rep,name=f17,json=jf17" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value" json:"jf17,omitempty"`
	Canary16         uint64
	F18              map[int32]Leaf `protobuf:"bytes,18,rep" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	XXX_unrecognized *[]byte        `json:"-"`
}

func (*Maps4) XXX_OneofWrappers() []any {
	return []any{}
}

type Maps5 struct {
	F1               map[int64]int32 `protobuf:"bytes,1,rep,name=f1,proto3" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F2               map[int64]int64 `protobuf:"bytes,2,rep,name=f2,json=jf2" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf2,omitempty"`
	Canary1          uint8
	F3               map[int64]uint32 `protobuf:"bytes,3,rep" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F4               map[int64]uint64 `protobuf:"bytes,4,rep,name=f4,proto3" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F5               map[int64]int32  `protobuf:"bytes,5,rep,name=f5,json=jf5" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value" json:"jf5,omitempty"`
	F6               map[int64]int64  `protobuf:"bytes,6,rep" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	F7               map[int64]uint32 `protobuf:"bytes,7,rep,name=f7,proto3" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F8               map[int64]uint64 `protobuf:"bytes,8,rep,name=f8,json=jf8" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value" json:"jf8,omitempty"`
	F9               map[int64]int32  `protobuf:"bytes,9,rep" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	Canary8          string
	F10              map[int64]int64   `protobuf:"bytes,10,rep,name=f10,proto3" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F11              map[int64]float32 `protobuf:"bytes,11,rep,name=f11,json=jf11" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value" json:"jf11,omitempty"`
	F12              map[int64]float64 `protobuf:"bytes,12,rep" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F13              map[int64]bool    `protobuf:"bytes,13,rep,name=f13,proto3" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F14              map[int64]sch.E   `protobuf:"bytes,14,rep,name=f14,json=jf14" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf14,omitempty"`
	F15              map[int64]string  `protobuf:"bytes,15,rep" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F16              map[int64][]byte  `protobuf:"bytes,16,rep,name=f16,proto3" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	Canary15         uint64
	F17              map[int64]*Leaf `protobuf:"bytes,17,rep,name=f17,json=jf17" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value" json:"jf17,omitempty"`
	F18              map[int64]Leaf  `protobuf:"bytes,18,rep" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	XXX_unrecognized *[]byte         `json:"-"`
}

func (*Maps5) XXX_OneofWrappers() []any {
	return []any{}
}

type Maps6 struct {
	F1               map[uint32]int32 `protobuf:"bytes,1,rep,name=f1,proto3" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	Canary0          uint8
	F2               map[uint32]int64  `protobuf:"bytes,2,rep,name=f2,json=jf2" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf2,omitempty"`
	F3               map[uint32]uint32 `protobuf:"bytes,3,rep" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F4               map[uint32]uint64 `protobuf:"bytes,4,rep,name=f4,proto3" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F5               map[uint32]int32  `protobuf:"bytes,5,rep,name=f5,json=jf5" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value" json:"jf5,omitempty"`
	F6               map[uint32]int64  `protobuf:"bytes,6,rep" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	F7               map[uint32]uint32 `protobuf:"bytes,7,rep,name=f7,proto3" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F8               map[uint32]uint64 `protobuf:"bytes,8,rep,name=f8,json=jf8" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value" json:"jf8,omitempty"`
	Canary7          string
	F9               map[uint32]int32   `protobuf:"bytes,9,rep" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F10              map[uint32]int64   `protobuf:"bytes,10,rep,name=f10,proto3" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F11              map[uint32]float32 `protobuf:"bytes,11,rep,name=f11,json=jf11" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value" json:"jf11,omitempty"`
	F12              map[uint32]float64 `protobuf:"bytes,12,rep" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F13              map[uint32]bool    `protobuf:"bytes,13,rep,name=f13,proto3" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F14              map[uint32]sch.E   `protobuf:"bytes,14,rep,name=f14,json=jf14" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf14,omitempty"`
	F15              map[uint32]string  `protobuf:"bytes,15,rep" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	Canary14         uint64
	F16              map[uint32][]byte `protobuf:"bytes,16,rep,name=f16,proto3" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F17              map[uint32]*Leaf  `protobuf:"bytes,17,rep,name=f17,json=jf17" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value" json:"jf17,omitempty"`
	F18              map[uint32]Leaf   `protobuf:"bytes,18,rep" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	XXX_unrecognized *[]byte           `json:"-"`
}

func (*Maps6) XXX_OneofWrappers() []any {
	return []any{}
}

type Maps7 struct {
	F1               map[uint64]int32  `protobuf:"bytes,1,rep,name=f1,proto3" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F2               map[uint64]int64  `protobuf:"bytes,2,rep,name=f2,json=jf2" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf2,omitempty"`
	F3               map[uint64]uint32 `protobuf:"bytes,3,rep" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F4               map[uint64]uint64 `protobuf:"bytes,4,rep,name=f4,proto3" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F5               map[uint64]int32  `protobuf:"bytes,5,rep,name=f5,json=jf5" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value" json:"jf5,omitempty"`
	F6               map[uint64]int64  `protobuf:"bytes,6,rep" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	F7               map[uint64]uint32 `protobuf:"bytes,7,rep,name=f7,proto3" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	Canary6          string
	F8               map[uint64]uint64  `protobuf:"bytes,8,rep,name=f8,json=jf8" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value" json:"jf8,omitempty"`
	F9               map[uint64]int32   `protobuf:"bytes,9,rep" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F10              map[uint64]int64   `protobuf:"bytes,10,rep,name=f10,proto3" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F11              map[uint64]float32 `protobuf:"bytes,11,rep,name=f11,json=jf11" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value" json:"jf11,omitempty"`
	F12              map[uint64]float64 `protobuf:"bytes,12,rep" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F13              map[uint64]bool    `protobuf:"bytes,13,rep,name=f13,proto3" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F14              map[uint64]sch.E   `protobuf:"bytes,14,rep,name=f14,json=jf14" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf14,omitempty"`
	Canary13         uint64
	F15              map[uint64]string `protobuf:"bytes,15,rep" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F16              map[uint64][]byte `protobuf:"bytes,16,rep,name=f16,proto3" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F17              map[uint64]*Leaf  `protobuf:"bytes,17,rep,name=f17,json=jf17" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value" json:"jf17,omitempty"`
	F18              map[uint64]Leaf   `protobuf:"bytes,18,rep" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	XXX_unrecognized *[]byte           `json:"-"`
}

func (*Maps7) XXX_OneofWrappers() []any {
	return []any{}
}

type Maps8 struct {
	F1               map[int32]int32  `protobuf:"bytes,1,rep,name=f1,proto3" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F2               map[int32]int64  `protobuf:"bytes,2,rep,name=f2,json=jf2" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf2,omitempty"`
	F3               map[int32]uint32 `protobuf:"bytes,3,rep" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F4               map[int32]uint64 `protobuf:"bytes,4,rep,name=f4,proto3" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F5               map[int32]int32  `protobuf:"bytes,5,rep,name=f5,json=jf5" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value" json:"jf5,omitempty"`
	F6               map[int32]int64  `protobuf:"bytes,6,rep" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	Canary5          string
	F7               map[int32]uint32  `protobuf:"bytes,7,rep,name=f7,proto3" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F8               map[int32]uint64  `protobuf:"bytes,8,rep,name=f8,json=jf8" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value" json:"jf8,omitempty"`
	F9               map[int32]int32   `protobuf:"bytes,9,rep" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F10              map[int32]int64   `protobuf:"bytes,10,rep,name=f10,proto3" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F11              map[int32]float32 `protobuf:"bytes,11,rep,name=f11,json=jf11" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value" json:"jf11,omitempty"`
	F12              map[int32]float64 `protobuf:"bytes,12,rep" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F13              map[int32]bool    `protobuf:"bytes,13,rep,name=f13,proto3" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	Canary12         uint64
	F14              map[int32]sch.E  `protobuf:"bytes,14,rep,name=f14,json=jf14" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf14,omitempty"`
	F15              map[int32]string `protobuf:"bytes,15,rep" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F16              map[int32][]byte `protobuf:"bytes,16,rep,name=f16,proto3" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F17              map[int32]*Leaf  `protobuf:"bytes,17,rep,name=f17,json=jf17" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value" json:"jf17,omitempty"`
	F18              map[int32]Leaf   `protobuf:"bytes,18,rep" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	XXX_unrecognized *[]byte          `json:"-"`
}

func (*Maps8) XXX_OneofWrappers() []any {
	return []any{}
}

type Maps9 struct {
	F1               map[int64]int32  `protobuf:"bytes,1,rep,name=f1,proto3" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F2               map[int64]int64  `protobuf:"bytes,2,rep,name=f2,json=jf2" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf2,omitempty"`
	F3               map[int64]uint32 `protobuf:"bytes,3,rep" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F4               map[int64]uint64 `protobuf:"bytes,4,rep,name=f4,proto3" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F5               map[int64]int32  `protobuf:"bytes,5,rep,name=f5,json=jf5" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value" json:"jf5,omitempty"`
	Canary4          string
	F6               map[int64]int64   `protobuf:"bytes,6,rep" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	F7               map[int64]uint32  `protobuf:"bytes,7,rep,name=f7,proto3" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F8               map[int64]uint64  `protobuf:"bytes,8,rep,name=f8,json=jf8" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value" json:"jf8,omitempty"`
	F9               map[int64]int32   `protobuf:"bytes,9,rep" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F10              map[int64]int64   `protobuf:"bytes,10,rep,name=f10,proto3" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F11              map[int64]float32 `protobuf:"bytes,11,rep,name=f11,json=jf11" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value" json:"jf11,omitempty"`
	F12              map[int64]float64 `protobuf:"bytes,12,rep" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	Canary11         uint64
	F13              map[int64]bool   `protobuf:"bytes,13,rep,name=f13,proto3" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F14              map[int64]sch.E  `protobuf:"bytes,14,rep,name=f14,json=jf14" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf14,omitempty"`
	F15              map[int64]string `protobuf:"bytes,15,rep" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F16              map[int64][]byte `protobuf:"bytes,16,rep,name=f16,proto3" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F17              map[int64]*Leaf  `protobuf:"bytes,17,rep,name=f17,json=jf17" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value" json:"jf17,omitempty"`
	F18              map[int64]Leaf   `protobuf:"bytes,18,rep" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	XXX_unrecognized *[]byte          `json:"-"`
}

func (*Maps9) XXX_OneofWrappers() []any {
	return []any{}
}

type Maps10 struct {
	F1               map[bool]int32  `protobuf:"bytes,1,rep,name=f1,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F2               map[bool]int64  `protobuf:"bytes,2,rep,name=f2,json=jf2" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf2,omitempty"`
	F3               map[bool]uint32 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F4               map[bool]uint64 `protobuf:"bytes,4,rep,name=f4,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	Canary3          string
	F5               map[bool]int32   `protobuf:"bytes,5,rep,name=f5,json=jf5" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value" json:"jf5,omitempty"`
	F6               map[bool]int64   `protobuf:"bytes,6,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	F7               map[bool]uint32  `protobuf:"bytes,7,rep,name=f7,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F8               map[bool]uint64  `protobuf:"bytes,8,rep,name=f8,json=jf8" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value" json:"jf8,omitempty"`
	F9               map[bool]int32   `protobuf:"bytes,9,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F10              map[bool]int64   `protobuf:"bytes,10,rep,name=f10,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F11              map[bool]float32 `protobuf:"bytes,11,rep,name=f11,json=jf11" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value" json:"jf11,omitempty"`
	Canary10         uint64
	F12              map[bool]float64 `protobuf:"bytes,12,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F13              map[bool]bool    `protobuf:"bytes,13,rep,name=f13,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F14              map[bool]sch.E   `protobuf:"bytes,14,rep,name=f14,json=jf14" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf14,omitempty"`
	F15              map[bool]string  `protobuf:"bytes,15,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F16              map[bool][]byte  `protobuf:"bytes,16,rep,name=f16,proto3" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F17              map[bool]*Leaf   `protobuf:"bytes,17,rep,name=f17,json=jf17" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value" json:"jf17,omitempty"`
	F18              map[bool]Leaf    `protobuf:"bytes,18,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	Canary17         [3]byte
	XXX_unrecognized *[]byte `json:"-"`
}

func (*Maps10) XXX_OneofWrappers() []any {
	return []any{}
}

type Maps11 struct {
	F1               map[string]int32  `protobuf:"bytes,1,rep,name=f1,proto3" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F2               map[string]int64  `protobuf:"bytes,2,rep,name=f2,json=jf2" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf2,omitempty"`
	F3               map[string]uint32 `protobuf:"bytes,3,rep" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	Canary2          string
	F4               map[string]uint64 `protobuf:"bytes,4,rep,name=f4,proto3" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F5               map[string]int32  `protobuf:"bytes,5,rep,name=f5,json=jf5" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value" json:"jf5,omitempty"`
	F6               map[string]int64  `protobuf:"bytes,6,rep" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	F7               map[string]uint32 `protobuf:"bytes,7,rep,name=f7,proto3" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F8               map[string]uint64 `protobuf:"bytes,8,rep,name=f8,json=jf8" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value" json:"jf8,omitempty"`
	F9               map[string]int32  `protobuf:"bytes,9,rep" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	F10              map[string]int64  `protobuf:"bytes,10,rep,name=f10,proto3" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	Canary9          uint64
	F11              map[string]float32 `protobuf:"bytes,11,rep,name=f11,json=jf11" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value" json:"jf11,omitempty"`
	F12              map[string]float64 `protobuf:"bytes,12,rep" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	F13              map[string]bool    `protobuf:"bytes,13,rep,name=f13,proto3" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F14              map[string]sch.E   `protobuf:"bytes,14,rep,name=f14,json=jf14" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value" json:"jf14,omitempty"`
	F15              map[string]string  `protobuf:"bytes,15,rep" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F16              map[string][]byte  `protobuf:"bytes,16,rep,name=f16,proto3" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F17              map[string]*Leaf   `protobuf:"bytes,17,rep,name=f17,json=jf17" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value" json:"jf17,omitempty"`
	Canary16         [3]byte
	F18              map[string]Leaf `protobuf:"bytes,18,rep" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	XXX_unrecognized *[]byte         `json:"-"`
}

func (*Maps11) XXX_OneofWrappers() []any {
	return []any{}
}

type BigOneof struct {
	O0            isBigOneof_O0 `protobuf_oneof:"o0"`
	F502          bool          `protobuf:"varint,502,opt,name=f502,proto3"`
	unknownFields []byte
}

type isBigOneof_O0 interface{ isBigOneof_O0() }

func (*BigOneof) XXX_OneofWrappers() []any {
	return []any{(*BigOneof_F1)(nil), (*BigOneof_F15)(nil), (*BigOneof_F16)(nil), (*BigOneof_F999)(nil), (*BigOneof_F1000)(nil), (*BigOneof_F1001)(nil), (*BigOneof_F1002)(nil), (*BigOneof_F2047)(nil), (*BigOneof_F2048)(nil), (*BigOneof_F262143)(nil), (*BigOneof_F262144)(nil), (*BigOneof_F33554431)(nil), (*BigOneof_F33554432)(nil), (*BigOneof_F536870911)(nil), (*BigOneof_F536870910)(nil), (*BigOneof_F17)(nil), (*BigOneof_F500)(nil), (*BigOneof_F501)(nil)}
}

type BigOneof_F1 struct {
	F1 int32 `protobuf:"varint,1,opt,name=f1,proto3,oneof"`
}

func (*BigOneof_F1) isBigOneof_O0() {}

type BigOneof_F15 struct {
	F15 int64 `protobuf:"varint,15,opt,oneof"`
}

func (*BigOneof_F15) isBigOneof_O0() {}

type BigOneof_F16 struct {
	F16 uint32 `protobuf:"varint,16,opt,name=f16,proto3,oneof"`
}

func (*BigOneof_F16) isBigOneof_O0() {}

type BigOneof_F999 struct {
	F999 uint64 `protobuf:"varint,999,opt,oneof"`
}

func (*BigOneof_F999) isBigOneof_O0() {}

type BigOneof_F1000 struct {
	F1000 int32 `protobuf:"zigzag32,1000,opt,name=f1000,proto3,oneof"`
}

func (*BigOneof_F1000) isBigOneof_O0() {}

type BigOneof_F1001 struct {
	F1001 int64 `protobuf:"zigzag64,1001,opt,name=f1001,json=jf1001,oneof" json:"jf1001,omitempty"`
}

func (*BigOneof_F1001) isBigOneof_O0() {}

type BigOneof_F1002 struct {
	F1002 uint32 `protobuf:"fixed32,1002,opt,oneof"`
}

func (*BigOneof_F1002) isBigOneof_O0() {}

type BigOneof_F2047 struct {
	F2047 uint64 `protobuf:"fixed64,2047,opt,name=f2047,proto3,oneof"`
}

func (*BigOneof_F2047) isBigOneof_O0() {}

type BigOneof_F2048 struct {
	F2048 int32 `protobuf:"fixed32,2048,opt,name=f2048,json=jf2048,oneof" json:"jf2048,omitempty"`
}

func (*BigOneof_F2048) isBigOneof_O0() {}

type BigOneof_F262143 struct {
	F262143 int64 `protobuf:"fixed64,262143,opt,oneof"`
}

func (*BigOneof_F262143) isBigOneof_O0() {}

type BigOneof_F262144 struct {
	F262144 float32 `protobuf:"fixed32,262144,opt,name=f262144,proto3,oneof"`
}

func (*BigOneof_F262144) isBigOneof_O0() {}

type BigOneof_F33554431 struct {
	F33554431 float64 `protobuf:"fixed64,33554431,opt,name=f33554431,proto3,oneof"`
}

func (*BigOneof_F33554431) isBigOneof_O0() {}

type BigOneof_F33554432 struct {
	F33554432 bool `protobuf:"varint,33554432,opt,name=f33554432,json=jf33554432,oneof" json:"jf33554432,omitempty"`
}

func (*BigOneof_F33554432) isBigOneof_O0() {}

type BigOneof_F536870911 struct {
	F536870911 sch.E `protobuf:"varint,536870911,opt,name=f536870911,proto3,enum=t.E,oneof"`
}

func (*BigOneof_F536870911) isBigOneof_O0() {}

type BigOneof_F536870910 struct {
	F536870910 string `protobuf:"bytes,536870910,opt,oneof"`
}

func (*BigOneof_F536870910) isBigOneof_O0() {}

type BigOneof_F17 struct {
	F17 []byte `protobuf:"bytes,17,opt,name=f17,json=jf17,oneof" json:"jf17,omitempty"`
}

func (*BigOneof_F17) isBigOneof_O0() {}

type BigOneof_F500 struct {
	F500 *Leaf `protobuf:"bytes,500,opt,name=f500,json=jf500,oneof" json:"jf500,omitempty"`
}

func (*BigOneof_F500) isBigOneof_O0() {}

type BigOneof_F501 struct {
	F501 *Rec `protobuf:"bytes,501,opt,oneof"`
}

func (*BigOneof_F501) isBigOneof_O0() {}

type RecVal struct {
	F1            []RecVal `protobuf:"bytes,1,rep,name=f1,proto3"`
	Canary0       string
	F2            map[string]RecVal `protobuf:"bytes,2,rep,name=f2,json=jf2" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value" json:"jf2,omitempty"`
	F3            map[int64]RecVal  `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F4            Leaf              `protobuf:"bytes,4,opt,name=f4,proto3"`
	F5            *uint32           `protobuf:"varint,5,opt,name=f5,json=jf5,def=42" json:"jf5,omitempty"`
	F6            *[]byte           `protobuf:"bytes,6,opt"`
	F7            string            `protobuf:"bytes,7,opt,name=f7,proto3"`
	unknownFields []byte
}

func (*RecVal) XXX_OneofWrappers() []any {
	return []any{}
}

type OneofVal struct {
	O0            isOneofVal_O0 `protobuf_oneof:"o0"`
	unknownFields *[]byte
}

type isOneofVal_O0 interface{ isOneofVal_O0() }

func (*OneofVal) XXX_OneofWrappers() []any {
	return []any{(*OneofVal_F1)(nil), (*OneofVal_F2)(nil)}
}

type OneofVal_F1 struct {
	F1 Leaf `protobuf:"bytes,1,opt,name=f1,proto3,oneof"`
}

func (*OneofVal_F1) isOneofVal_O0() {}

type OneofVal_F2 struct {
	F2 uint32 `protobuf:"varint,2,opt,name=f2,json=jf2,oneof" json:"jf2,omitempty"`
}

func (*OneofVal_F2) isOneofVal_O0() {}
