// Code generated by cmd/fixgen. DO NOT EDIT.

package pb

import "reflect"

const Model = "[{\"name\":\"S0M1\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f20\",\"i\":20,\"k\":11,\"s\":4,\"m\":68},{\"n\":\"f11\",\"i\":11,\"k\":11,\"s\":6,\"m\":69},{\"n\":\"f15\",\"i\":15,\"k\":1,\"s\":3},{\"n\":\"f2048\",\"i\":2048,\"k\":11,\"s\":1,\"m\":73},{\"n\":\"f28\",\"i\":28,\"k\":12,\"s\":6},{\"n\":\"f262144\",\"i\":262144,\"k\":7,\"s\":5,\"y\":13},{\"n\":\"f9\",\"i\":9,\"k\":15},{\"n\":\"f778\",\"i\":778,\"k\":6,\"s\":1},{\"n\":\"f352\",\"i\":352,\"k\":6,\"s\":5,\"y\":5}]},{\"name\":\"S1M1\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f996\",\"i\":996,\"k\":7,\"s\":5,\"y\":3},{\"n\":\"f1001\",\"i\":1001,\"k\":5,\"s\":6},{\"n\":\"f13\",\"i\":13,\"k\":1,\"s\":6},{\"n\":\"f20000\",\"i\":20000,\"k\":17,\"s\":5,\"y\":7},{\"n\":\"f3\",\"i\":3,\"k\":11,\"s\":4,\"m\":74},{\"n\":\"f1\",\"i\":1,\"k\":8,\"s\":5,\"y\":8},{\"n\":\"f11\",\"i\":11,\"k\":1,\"s\":1},{\"n\":\"f254258837\",\"i\":254258837,\"k\":13,\"s\":1},{\"n\":\"f12\",\"i\":12,\"k\":12},{\"n\":\"f10\",\"i\":10,\"k\":6,\"s\":1}]},{\"name\":\"S2M1\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f15\",\"i\":15,\"k\":8},{\"n\":\"f1006\",\"i\":1006,\"k\":15},{\"n\":\"f8\",\"i\":8,\"k\":2,\"s\":4},{\"n\":\"f9\",\"i\":9,\"k\":11,\"s\":4,\"m\":75},{\"n\":\"f21\",\"i\":21,\"k\":14},{\"n\":\"f20\",\"i\":20,\"k\":11,\"s\":1,\"m\":76},{\"n\":\"f1\",\"i\":1,\"k\":6,\"s\":5,\"y\":18},{\"n\":\"f12\",\"i\":12,\"k\":11,\"s\":6,\"m\":78},{\"n\":\"f13\",\"i\":13,\"k\":12,\"s\":6},{\"n\":\"f14\",\"i\":14,\"k\":16,\"s\":6}]},{\"name\":\"S3M1\",\"u\":1,\"f\":null},{\"name\":\"S4M1\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f262144\",\"i\":262144,\"k\":8,\"s\":6},{\"n\":\"f18999\",\"i\":18999,\"k\":13},{\"n\":\"f260404734\",\"i\":260404734,\"k\":11,\"s\":5,\"y\":4,\"m\":80},{\"n\":\"f17\",\"i\":17,\"k\":11,\"s\":6,\"m\":81},{\"n\":\"f5\",\"i\":5,\"k\":13,\"s\":6},{\"n\":\"f479\",\"i\":479,\"k\":9},{\"n\":\"f10\",\"i\":10,\"k\":2,\"s\":1},{\"n\":\"f11\",\"i\":11,\"k\":11,\"s\":4,\"m\":82}]},{\"name\":\"S5M1\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f3\",\"i\":3,\"k\":11,\"s\":5,\"y\":7,\"m\":83},{\"n\":\"f12\",\"i\":12,\"k\":6,\"s\":6},{\"n\":\"f2\",\"i\":2,\"k\":6},{\"n\":\"f914\",\"i\":914,\"k\":16,\"s\":4,\"p\":true},{\"n\":\"f8\",\"i\":8,\"k\":11,\"s\":1,\"m\":85},{\"n\":\"f30\",\"i\":30,\"k\":11,\"s\":4,\"m\":85},{\"n\":\"f815\",\"i\":815,\"k\":7,\"s\":3},{\"n\":\"f459918137\",\"i\":459918137,\"k\":3,\"s\":6}]},{\"name\":\"S6M1\",\"u\":1,\"f\":[{\"n\":\"f4\",\"i\":4,\"k\":6,\"s\":4,\"p\":true}]},{\"name\":\"S7M1\",\"u\":1,\"f\":[{\"n\":\"f995\",\"i\":995,\"k\":11,\"s\":5,\"y\":18,\"m\":86},{\"n\":\"f10\",\"i\":10,\"k\":17,\"s\":4}]},{\"name\":\"S8M1\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f2047\",\"i\":2047,\"k\":15},{\"n\":\"f998\",\"i\":998,\"k\":4},{\"n\":\"f27\",\"i\":27,\"k\":9,\"s\":6},{\"n\":\"f2\",\"i\":2,\"k\":12,\"s\":5,\"y\":5}]},{\"name\":\"S9M1\",\"u\":1,\"f\":[{\"n\":\"f16\",\"i\":16,\"k\":4,\"s\":5,\"y\":17},{\"n\":\"f13\",\"i\":13,\"k\":7},{\"n\":\"f9\",\"i\":9,\"k\":13,\"s\":1},{\"n\":\"f1\",\"i\":1,\"k\":6},{\"n\":\"f7\",\"i\":7,\"k\":11,\"s\":1,\"m\":88}]},{\"name\":\"S10M1\",\"u\":1,\"f\":[{\"n\":\"f8\",\"i\":8,\"k\":11,\"s\":1,\"m\":92},{\"n\":\"f7\",\"i\":7,\"k\":7},{\"n\":\"f1002\",\"i\":1002,\"k\":11,\"s\":1,\"m\":94},{\"n\":\"f1000\",\"i\":1000,\"k\":8},{\"n\":\"f9\",\"i\":9,\"k\":11,\"s\":1,\"m\":93},{\"n\":\"f262144\",\"i\":262144,\"k\":11,\"s\":1,\"m\":96},{\"n\":\"f625\",\"i\":625,\"k\":11,\"s\":1,\"m\":94},{\"n\":\"f11\",\"i\":11,\"k\":8,\"s\":5,\"y\":6}]},{\"name\":\"S11M1\",\"u\":1,\"f\":[{\"n\":\"f998\",\"i\":998,\"k\":3,\"s\":4},{\"n\":\"f9\",\"i\":9,\"k\":12,\"s\":5,\"y\":15},{\"n\":\"f6\",\"i\":6,\"k\":11,\"s\":1,\"m\":97},{\"n\":\"f10\",\"i\":10,\"k\":3}]},{\"name\":\"S12M1\",\"u\":1,\"f\":[{\"n\":\"f32\",\"i\":32,\"k\":17,\"s\":5,\"y\":9},{\"n\":\"f536870910\",\"i\":536870910,\"k\":16},{\"n\":\"f2047\",\"i\":2047,\"k\":11,\"s\":1,\"m\":98},{\"n\":\"f926\",\"i\":926,\"k\":6,\"s\":4},{\"n\":\"f13\",\"i\":13,\"k\":13},{\"n\":\"f2048\",\"i\":2048,\"k\":18},{\"n\":\"f536870911\",\"i\":536870911,\"k\":11,\"s\":5,\"y\":7,\"m\":100},{\"n\":\"f15\",\"i\":15,\"k\":13},{\"n\":\"f12\",\"i\":12,\"k\":17,\"s\":5,\"y\":17},{\"n\":\"f35\",\"i\":35,\"k\":11,\"s\":1,\"m\":104}]},{\"name\":\"S13M1\",\"o\":2,\"u\":1,\"f\":[{\"n\":\"f960\",\"i\":960,\"k\":13,\"s\":6},{\"n\":\"f6\",\"i\":6,\"k\":12,\"s\":6},{\"n\":\"f2\",\"i\":2,\"k\":7,\"s\":4,\"p\":true},{\"n\":\"f15\",\"i\":15,\"k\":18,\"s\":6,\"o\":1},{\"n\":\"f14\",\"i\":14,\"k\":2,\"s\":6},{\"n\":\"f11\",\"i\":11,\"k\":4,\"s\":4,\"p\":true},{\"n\":\"f516\",\"i\":516,\"k\":6,\"s\":4,\"p\":true},{\"n\":\"f529169674\",\"i\":529169674,\"k\":11,\"s\":1,\"m\":105}]},{\"name\":\"S14M1\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f647\",\"i\":647,\"k\":9,\"s\":6},{\"n\":\"f35\",\"i\":35,\"k\":11,\"s\":1,\"m\":109},{\"n\":\"f9\",\"i\":9,\"k\":11,\"s\":1,\"m\":113},{\"n\":\"f20000\",\"i\":20000,\"k\":8,\"s\":1},{\"n\":\"f21\",\"i\":21,\"k\":6,\"s\":4,\"p\":true},{\"n\":\"f6\",\"i\":6,\"k\":11,\"s\":5,\"y\":17,\"m\":116}]},{\"name\":\"S15M1\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f3\",\"i\":3,\"k\":13,\"s\":1},{\"n\":\"f124\",\"i\":124,\"k\":5,\"s\":6},{\"n\":\"f2\",\"i\":2,\"k\":11,\"s\":1,\"m\":117},{\"n\":\"f21\",\"i\":21,\"k\":6,\"s\":5,\"y\":15},{\"n\":\"f735\",\"i\":735,\"k\":17,\"s\":5,\"y\":7},{\"n\":\"f262143\",\"i\":262143,\"k\":3,\"s\":4,\"p\":true},{\"n\":\"f536870911\",\"i\":536870911,\"k\":12,\"s\":6},{\"n\":\"f33554431\",\"i\":33554431,\"k\":18,\"s\":3}]},{\"name\":\"S16M1\",\"u\":1,\"f\":null},{\"name\":\"S17M1\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f379689147\",\"i\":379689147,\"k\":12,\"s\":1},{\"n\":\"f12\",\"i\":12,\"k\":15,\"s\":6},{\"n\":\"f7\",\"i\":7,\"k\":11,\"s\":1,\"m\":118},{\"n\":\"f9\",\"i\":9,\"k\":11,\"s\":5,\"y\":5,\"m\":119},{\"n\":\"f2048\",\"i\":2048,\"k\":7,\"s\":4,\"p\":true},{\"n\":\"f13\",\"i\":13,\"k\":12,\"s\":6},{\"n\":\"f10\",\"i\":10,\"k\":1,\"s\":6},{\"n\":\"f1002\",\"i\":1002,\"k\":11,\"s\":1,\"m\":120},{\"n\":\"f1003\",\"i\":1003,\"k\":5,\"s\":1}]},{\"name\":\"S18M1\",\"u\":1,\"f\":[{\"n\":\"f5\",\"i\":5,\"k\":9},{\"n\":\"f10\",\"i\":10,\"k\":1,\"s\":1},{\"n\":\"f11\",\"i\":11,\"k\":11,\"s\":1,\"m\":121},{\"n\":\"f911\",\"i\":911,\"k\":7,\"s\":4,\"p\":true},{\"n\":\"f1001\",\"i\":1001,\"k\":7,\"s\":5,\"y\":8},{\"n\":\"f8\",\"i\":8,\"k\":1,\"s\":3},{\"n\":\"f2047\",\"i\":2047,\"k\":2,\"s\":4,\"p\":true}]},{\"name\":\"S19M1\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f262143\",\"i\":262143,\"k\":11,\"s\":1,\"m\":122},{\"n\":\"f13\",\"i\":13,\"k\":3,\"s\":4},{\"n\":\"f262144\",\"i\":262144,\"k\":16,\"s\":6},{\"n\":\"f1004\",\"i\":1004,\"k\":2,\"s\":1},{\"n\":\"f35\",\"i\":35,\"k\":6},{\"n\":\"f262145\",\"i\":262145,\"k\":7,\"s\":4},{\"n\":\"f117\",\"i\":117,\"k\":4}]},{\"name\":\"S20M1\",\"u\":1,\"f\":null},{\"name\":\"S21M1\",\"u\":1,\"f\":[{\"n\":\"f12\",\"i\":12,\"k\":17,\"s\":5,\"y\":5},{\"n\":\"f439665010\",\"i\":439665010,\"k\":15,\"s\":1},{\"n\":\"f18999\",\"i\":18999,\"k\":11,\"s\":4,\"m\":125},{\"n\":\"f181823282\",\"i\":181823282,\"k\":11,\"s\":4,\"m\":127},{\"n\":\"f13\",\"i\":13,\"k\":11,\"s\":1,\"m\":130},{\"n\":\"f20000\",\"i\":20000,\"k\":2,\"s\":4},{\"n\":\"f15\",\"i\":15,\"k\":11,\"s\":4,\"m\":125},{\"n\":\"f1000\",\"i\":1000,\"k\":8}]},{\"name\":\"S22M1\",\"u\":1,\"f\":[{\"n\":\"f11\",\"i\":11,\"k\":11,\"s\":5,\"y\":15,\"m\":135},{\"n\":\"f576\",\"i\":576,\"k\":5},{\"n\":\"f448\",\"i\":448,\"k\":9,\"s\":5,\"y\":16},{\"n\":\"f5\",\"i\":5,\"k\":13,\"s\":5,\"y\":18},{\"n\":\"f741\",\"i\":741,\"k\":4,\"s\":4,\"p\":true},{\"n\":\"f2\",\"i\":2,\"k\":8,\"s\":5,\"y\":8}]},{\"name\":\"S23M1\",\"u\":1,\"f\":[{\"n\":\"f15\",\"i\":15,\"k\":8}]},{\"name\":\"S24M1\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f1006\",\"i\":1006,\"k\":14},{\"n\":\"f326\",\"i\":326,\"k\":11,\"s\":1,\"m\":137},{\"n\":\"f4\",\"i\":4,\"k\":11,\"s\":5,\"y\":3,\"m\":140},{\"n\":\"f3\",\"i\":3,\"k\":1,\"s\":5,\"y\":16},{\"n\":\"f18\",\"i\":18,\"k\":11,\"s\":5,\"y\":15,\"m\":141},{\"n\":\"f71\",\"i\":71,\"k\":11,\"s\":1,\"m\":140},{\"n\":\"f999\",\"i\":999,\"k\":14,\"s\":4},{\"n\":\"f33\",\"i\":33,\"k\":12,\"s\":4},{\"n\":\"f1003\",\"i\":1003,\"k\":11,\"s\":4,\"m\":144},{\"n\":\"f1000\",\"i\":1000,\"k\":1,\"s\":6}]},{\"name\":\"S25M1\",\"u\":1,\"f\":[{\"n\":\"f310\",\"i\":310,\"k\":7,\"s\":1}]},{\"name\":\"S26M1\",\"u\":1,\"f\":[{\"n\":\"f13\",\"i\":13,\"k\":8,\"s\":1},{\"n\":\"f2\",\"i\":2,\"k\":9,\"s\":5,\"y\":3},{\"n\":\"f468529711\",\"i\":468529711,\"k\":12,\"s\":1},{\"n\":\"f104\",\"i\":104,\"k\":5,\"s\":5,\"y\":16},{\"n\":\"f22\",\"i\":22,\"k\":1,\"s\":4},{\"n\":\"f38\",\"i\":38,\"k\":4,\"s\":5,\"y\":5}]},{\"name\":\"S27M1\",\"u\":1,\"f\":[{\"n\":\"f618\",\"i\":618,\"k\":12,\"s\":5,\"y\":5}]},{\"name\":\"S28M1\",\"u\":1,\"f\":null},{\"name\":\"S29M1\",\"u\":1,\"f\":[{\"n\":\"f8\",\"i\":8,\"k\":1,\"s\":1},{\"n\":\"f12\",\"i\":12,\"k\":14,\"s\":4,\"p\":true},{\"n\":\"f2\",\"i\":2,\"k\":18,\"s\":4,\"p\":true}]},{\"name\":\"S30M1\",\"u\":1,\"f\":[{\"n\":\"f8\",\"i\":8,\"k\":6,\"s\":1}]},{\"name\":\"S31M1\",\"o\":2,\"u\":1,\"f\":[{\"n\":\"f12\",\"i\":12,\"k\":18,\"s\":5,\"y\":5},{\"n\":\"f15\",\"i\":15,\"k\":1,\"s\":6},{\"n\":\"f3\",\"i\":3,\"k\":6,\"s\":1},{\"n\":\"f9\",\"i\":9,\"k\":7,\"s\":5,\"y\":6},{\"n\":\"f33554432\",\"i\":33554432,\"k\":11,\"s\":6,\"m\":146,\"o\":1},{\"n\":\"f996\",\"i\":996,\"k\":15,\"s\":6,\"o\":1},{\"n\":\"f22\",\"i\":22,\"k\":15,\"s\":6},{\"n\":\"f33554433\",\"i\":33554433,\"k\":3,\"s\":4,\"p\":true},{\"n\":\"f13\",\"i\":13,\"k\":11,\"s\":1,\"m\":148},{\"n\":\"f2\",\"i\":2,\"k\":6,\"s\":6,\"o\":1}]},{\"name\":\"S32M1\",\"u\":1,\"f\":[{\"n\":\"f2\",\"i\":2,\"k\":11,\"s\":4,\"m\":150},{\"n\":\"f536870911\",\"i\":536870911,\"k\":18,\"s\":4},{\"n\":\"f999\",\"i\":999,\"k\":9},{\"n\":\"f528931624\",\"i\":528931624,\"k\":12,\"s\":5,\"y\":6}]},{\"name\":\"S33M1\",\"o\":2,\"u\":1,\"f\":[{\"n\":\"f33554432\",\"i\":33554432,\"k\":2,\"s\":1},{\"n\":\"f34\",\"i\":34,\"k\":18,\"s\":5,\"y\":3},{\"n\":\"f11\",\"i\":11,\"k\":9},{\"n\":\"f27\",\"i\":27,\"k\":3,\"s\":6},{\"n\":\"f6\",\"i\":6,\"k\":6,\"s\":1},{\"n\":\"f1001\",\"i\":1001,\"k\":4},{\"n\":\"f20000\",\"i\":20000,\"k\":11,\"s\":6,\"m\":152,\"o\":1},{\"n\":\"f9\",\"i\":9,\"k\":7,\"s\":5,\"y\":3},{\"n\":\"f18999\",\"i\":18999,\"k\":8,\"s\":1},{\"n\":\"f2\",\"i\":2,\"k\":8,\"s\":1}]},{\"name\":\"S34M1\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f2047\",\"i\":2047,\"k\":11,\"s\":1,\"m\":156},{\"n\":\"f997\",\"i\":997,\"k\":11,\"s\":6,\"m\":157},{\"n\":\"f54\",\"i\":54,\"k\":5,\"s\":6},{\"n\":\"f458\",\"i\":458,\"k\":13},{\"n\":\"f14\",\"i\":14,\"k\":7,\"s\":4}]},{\"name\":\"S35M1\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f2047\",\"i\":2047,\"k\":11,\"s\":6,\"m\":160},{\"n\":\"f170\",\"i\":170,\"k\":5,\"s\":5,\"y\":5},{\"n\":\"f12\",\"i\":12,\"k\":2,\"s\":6},{\"n\":\"f39\",\"i\":39,\"k\":12,\"s\":5,\"y\":16},{\"n\":\"f827\",\"i\":827,\"k\":13}]},{\"name\":\"S36M1\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f3\",\"i\":3,\"k\":11,\"s\":1,\"m\":163},{\"n\":\"f7\",\"i\":7,\"k\":5,\"s\":6},{\"n\":\"f1002\",\"i\":1002,\"k\":16},{\"n\":\"f4\",\"i\":4,\"k\":17,\"s\":1},{\"n\":\"f2048\",\"i\":2048,\"k\":11,\"s\":6,\"m\":167},{\"n\":\"f5\",\"i\":5,\"k\":11,\"s\":1,\"m\":168},{\"n\":\"f1000\",\"i\":1000,\"k\":4},{\"n\":\"f122\",\"i\":122,\"k\":11,\"s\":4,\"m\":169},{\"n\":\"f6\",\"i\":6,\"k\":11,\"s\":3,\"m\":171}]},{\"name\":\"S37M1\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f932\",\"i\":932,\"k\":1},{\"n\":\"f4\",\"i\":4,\"k\":11,\"s\":5,\"y\":9,\"m\":173},{\"n\":\"f997\",\"i\":997,\"k\":11,\"s\":6,\"m\":175}]},{\"name\":\"S38M1\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f13\",\"i\":13,\"k\":2,\"s\":6},{\"n\":\"f1006\",\"i\":1006,\"k\":2},{\"n\":\"f15\",\"i\":15,\"k\":11,\"s\":5,\"y\":18,\"m\":178}]},{\"name\":\"S39M1\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f24\",\"i\":24,\"k\":13,\"s\":5,\"y\":6},{\"n\":\"f5\",\"i\":5,\"k\":11,\"s\":6,\"m\":180},{\"n\":\"f3\",\"i\":3,\"k\":11,\"s\":1,\"m\":181},{\"n\":\"f6\",\"i\":6,\"k\":15},{\"n\":\"f7\",\"i\":7,\"k\":11,\"s\":3,\"m\":182},{\"n\":\"f8\",\"i\":8,\"k\":11,\"s\":5,\"y\":8,\"m\":184}]},{\"name\":\"S40M1\",\"u\":1,\"f\":[{\"n\":\"f11\",\"i\":11,\"k\":4},{\"n\":\"f1\",\"i\":1,\"k\":16,\"s\":4},{\"n\":\"f8\",\"i\":8,\"k\":12,\"s\":4},{\"n\":\"f999\",\"i\":999,\"k\":15,\"s\":1}]},{\"name\":\"S41M1\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f36\",\"i\":36,\"k\":11,\"s\":6,\"m\":185},{\"n\":\"f85119314\",\"i\":85119314,\"k\":18,\"s\":1},{\"n\":\"f10\",\"i\":10,\"k\":9,\"s\":1}]},{\"name\":\"S42M1\",\"u\":1,\"f\":[{\"n\":\"f15\",\"i\":15,\"k\":1,\"s\":4,\"p\":true},{\"n\":\"f515\",\"i\":515,\"k\":17,\"s\":5,\"y\":4},{\"n\":\"f997\",\"i\":997,\"k\":17,\"s\":1},{\"n\":\"f1006\",\"i\":1006,\"k\":13,\"s\":4,\"p\":true}]},{\"name\":\"S43M1\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f18999\",\"i\":18999,\"k\":11,\"s\":6,\"m\":187},{\"n\":\"f366708338\",\"i\":366708338,\"k\":8,\"s\":5,\"y\":8}]},{\"name\":\"S44M1\",\"u\":1,\"f\":[{\"n\":\"f1002\",\"i\":1002,\"k\":11,\"s\":1,\"m\":189},{\"n\":\"f2\",\"i\":2,\"k\":3,\"s\":5,\"y\":3},{\"n\":\"f9\",\"i\":9,\"k\":6,\"s\":5,\"y\":18},{\"n\":\"f8\",\"i\":8,\"k\":11,\"s\":4,\"m\":190},{\"n\":\"f14\",\"i\":14,\"k\":3,\"s\":1}]},{\"name\":\"S45M1\",\"o\":2,\"u\":1,\"f\":[{\"n\":\"f24\",\"i\":24,\"k\":5,\"s\":5,\"y\":6},{\"n\":\"f10\",\"i\":10,\"k\":4,\"s\":6},{\"n\":\"f33554431\",\"i\":33554431,\"k\":11,\"s\":4,\"m\":191},{\"n\":\"f17\",\"i\":17,\"k\":3},{\"n\":\"f11\",\"i\":11,\"k\":11,\"s\":1,\"m\":193},{\"n\":\"f210\",\"i\":210,\"k\":16,\"s\":6,\"o\":1}]},{\"name\":\"S46M1\",\"u\":1,\"f\":[{\"n\":\"f434\",\"i\":434,\"k\":2,\"s\":3},{\"n\":\"f35\",\"i\":35,\"k\":8,\"s\":1},{\"n\":\"f1005\",\"i\":1005,\"k\":13,\"s\":4},{\"n\":\"f4\",\"i\":4,\"k\":12,\"s\":3},{\"n\":\"f9\",\"i\":9,\"k\":6,\"s\":1},{\"n\":\"f521757425\",\"i\":521757425,\"k\":4},{\"n\":\"f25\",\"i\":25,\"k\":11,\"s\":1,\"m\":195},{\"n\":\"f7\",\"i\":7,\"k\":11,\"s\":1,\"m\":195}]},{\"name\":\"S47M1\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f563\",\"i\":563,\"k\":11,\"s\":3,\"m\":199},{\"n\":\"f995\",\"i\":995,\"k\":11,\"s\":6,\"m\":200},{\"n\":\"f18999\",\"i\":18999,\"k\":7,\"s\":4},{\"n\":\"f998\",\"i\":998,\"k\":15},{\"n\":\"f187\",\"i\":187,\"k\":11,\"s\":1,\"m\":202},{\"n\":\"f671\",\"i\":671,\"k\":8}]},{\"name\":\"Rec\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":11,\"s\":1,\"m\":49},{\"n\":\"f2\",\"i\":2,\"k\":11,\"s\":4,\"m\":49},{\"n\":\"f3\",\"i\":3,\"k\":11,\"s\":5,\"y\":9,\"m\":49},{\"n\":\"f4\",\"i\":4,\"k\":11,\"s\":5,\"y\":5,\"m\":49},{\"n\":\"f5\",\"i\":5,\"k\":11,\"s\":5,\"y\":4,\"m\":49},{\"n\":\"f6\",\"i\":6,\"k\":11,\"s\":5,\"y\":8,\"m\":49},{\"n\":\"f7\",\"i\":7,\"k\":11,\"s\":6,\"m\":49},{\"n\":\"f8\",\"i\":8,\"k\":5,\"s\":6},{\"n\":\"f9\",\"i\":9,\"k\":5},{\"n\":\"f10\",\"i\":10,\"k\":9,\"s\":1},{\"n\":\"f11\",\"i\":11,\"k\":12,\"s\":4}]},{\"name\":\"MutA\",\"u\":1,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":11,\"s\":1,\"m\":204},{\"n\":\"f2\",\"i\":2,\"k\":18,\"s\":4,\"p\":true},{\"n\":\"f3\",\"i\":3,\"k\":11,\"s\":4,\"m\":50}]},{\"name\":\"AllImplicit\",\"u\":1,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":5},{\"n\":\"f2\",\"i\":2,\"k\":3},{\"n\":\"f3\",\"i\":3,\"k\":13},{\"n\":\"f4\",\"i\":4,\"k\":4},{\"n\":\"f5\",\"i\":5,\"k\":17},{\"n\":\"f6\",\"i\":6,\"k\":18},{\"n\":\"f7\",\"i\":7,\"k\":7},{\"n\":\"f8\",\"i\":8,\"k\":6},{\"n\":\"f9\",\"i\":9,\"k\":15},{\"n\":\"f10\",\"i\":10,\"k\":16},{\"n\":\"f11\",\"i\":11,\"k\":2},{\"n\":\"f12\",\"i\":12,\"k\":1},{\"n\":\"f13\",\"i\":13,\"k\":8},{\"n\":\"f14\",\"i\":14,\"k\":14},{\"n\":\"f15\",\"i\":15,\"k\":9},{\"n\":\"f16\",\"i\":16,\"k\":12}]},{\"name\":\"AllExplicit\",\"u\":1,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":5,\"s\":1},{\"n\":\"f2\",\"i\":2,\"k\":3,\"s\":1},{\"n\":\"f3\",\"i\":3,\"k\":13,\"s\":1},{\"n\":\"f4\",\"i\":4,\"k\":4,\"s\":1},{\"n\":\"f5\",\"i\":5,\"k\":17,\"s\":1},{\"n\":\"f6\",\"i\":6,\"k\":18,\"s\":1},{\"n\":\"f7\",\"i\":7,\"k\":7,\"s\":1},{\"n\":\"f8\",\"i\":8,\"k\":6,\"s\":1},{\"n\":\"f9\",\"i\":9,\"k\":15,\"s\":1},{\"n\":\"f10\",\"i\":10,\"k\":16,\"s\":1},{\"n\":\"f11\",\"i\":11,\"k\":2,\"s\":1},{\"n\":\"f12\",\"i\":12,\"k\":1,\"s\":1},{\"n\":\"f13\",\"i\":13,\"k\":8,\"s\":1},{\"n\":\"f14\",\"i\":14,\"k\":14,\"s\":1},{\"n\":\"f15\",\"i\":15,\"k\":9,\"s\":1},{\"n\":\"f16\",\"i\":16,\"k\":12,\"s\":1}]},{\"name\":\"AllRepeated\",\"u\":1,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":5,\"s\":4,\"p\":true},{\"n\":\"f2\",\"i\":2,\"k\":5,\"s\":4},{\"n\":\"f3\",\"i\":3,\"k\":3,\"s\":4,\"p\":true},{\"n\":\"f4\",\"i\":4,\"k\":3,\"s\":4},{\"n\":\"f5\",\"i\":5,\"k\":13,\"s\":4,\"p\":true},{\"n\":\"f6\",\"i\":6,\"k\":13,\"s\":4},{\"n\":\"f7\",\"i\":7,\"k\":4,\"s\":4,\"p\":true},{\"n\":\"f8\",\"i\":8,\"k\":4,\"s\":4},{\"n\":\"f9\",\"i\":9,\"k\":17,\"s\":4,\"p\":true},{\"n\":\"f10\",\"i\":10,\"k\":17,\"s\":4},{\"n\":\"f11\",\"i\":11,\"k\":18,\"s\":4,\"p\":true},{\"n\":\"f12\",\"i\":12,\"k\":18,\"s\":4},{\"n\":\"f13\",\"i\":13,\"k\":7,\"s\":4,\"p\":true},{\"n\":\"f14\",\"i\":14,\"k\":7,\"s\":4},{\"n\":\"f15\",\"i\":15,\"k\":6,\"s\":4,\"p\":true},{\"n\":\"f16\",\"i\":16,\"k\":6,\"s\":4},{\"n\":\"f17\",\"i\":17,\"k\":15,\"s\":4,\"p\":true},{\"n\":\"f18\",\"i\":18,\"k\":15,\"s\":4},{\"n\":\"f19\",\"i\":19,\"k\":16,\"s\":4,\"p\":true},{\"n\":\"f20\",\"i\":20,\"k\":16,\"s\":4},{\"n\":\"f21\",\"i\":21,\"k\":2,\"s\":4,\"p\":true},{\"n\":\"f22\",\"i\":22,\"k\":2,\"s\":4},{\"n\":\"f23\",\"i\":23,\"k\":1,\"s\":4,\"p\":true},{\"n\":\"f24\",\"i\":24,\"k\":1,\"s\":4},{\"n\":\"f25\",\"i\":25,\"k\":8,\"s\":4,\"p\":true},{\"n\":\"f26\",\"i\":26,\"k\":8,\"s\":4},{\"n\":\"f27\",\"i\":27,\"k\":14,\"s\":4,\"p\":true},{\"n\":\"f28\",\"i\":28,\"k\":14,\"s\":4},{\"n\":\"f29\",\"i\":29,\"k\":9,\"s\":4},{\"n\":\"f30\",\"i\":30,\"k\":12,\"s\":4}]},{\"name\":\"AllOneof\",\"o\":16,\"u\":1,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":5,\"s\":6},{\"n\":\"f2\",\"i\":2,\"k\":9,\"s\":6},{\"n\":\"f3\",\"i\":3,\"k\":3,\"s\":6,\"o\":1},{\"n\":\"f4\",\"i\":4,\"k\":9,\"s\":6,\"o\":1},{\"n\":\"f5\",\"i\":5,\"k\":13,\"s\":6,\"o\":2},{\"n\":\"f6\",\"i\":6,\"k\":9,\"s\":6,\"o\":2},{\"n\":\"f7\",\"i\":7,\"k\":4,\"s\":6,\"o\":3},{\"n\":\"f8\",\"i\":8,\"k\":9,\"s\":6,\"o\":3},{\"n\":\"f9\",\"i\":9,\"k\":17,\"s\":6,\"o\":4},{\"n\":\"f10\",\"i\":10,\"k\":9,\"s\":6,\"o\":4},{\"n\":\"f11\",\"i\":11,\"k\":18,\"s\":6,\"o\":5},{\"n\":\"f12\",\"i\":12,\"k\":9,\"s\":6,\"o\":5},{\"n\":\"f13\",\"i\":13,\"k\":7,\"s\":6,\"o\":6},{\"n\":\"f14\",\"i\":14,\"k\":9,\"s\":6,\"o\":6},{\"n\":\"f15\",\"i\":15,\"k\":6,\"s\":6,\"o\":7},{\"n\":\"f16\",\"i\":16,\"k\":9,\"s\":6,\"o\":7},{\"n\":\"f17\",\"i\":17,\"k\":15,\"s\":6,\"o\":8},{\"n\":\"f18\",\"i\":18,\"k\":9,\"s\":6,\"o\":8},{\"n\":\"f19\",\"i\":19,\"k\":16,\"s\":6,\"o\":9},{\"n\":\"f20\",\"i\":20,\"k\":9,\"s\":6,\"o\":9},{\"n\":\"f21\",\"i\":21,\"k\":2,\"s\":6,\"o\":10},{\"n\":\"f22\",\"i\":22,\"k\":9,\"s\":6,\"o\":10},{\"n\":\"f23\",\"i\":23,\"k\":1,\"s\":6,\"o\":11},{\"n\":\"f24\",\"i\":24,\"k\":9,\"s\":6,\"o\":11},{\"n\":\"f25\",\"i\":25,\"k\":8,\"s\":6,\"o\":12},{\"n\":\"f26\",\"i\":26,\"k\":9,\"s\":6,\"o\":12},{\"n\":\"f27\",\"i\":27,\"k\":14,\"s\":6,\"o\":13},{\"n\":\"f28\",\"i\":28,\"k\":9,\"s\":6,\"o\":13},{\"n\":\"f29\",\"i\":29,\"k\":9,\"s\":6,\"o\":14},{\"n\":\"f30\",\"i\":30,\"k\":9,\"s\":6,\"o\":14},{\"n\":\"f31\",\"i\":31,\"k\":12,\"s\":6,\"o\":15},{\"n\":\"f32\",\"i\":32,\"k\":9,\"s\":6,\"o\":15}]},{\"name\":\"Maps0\",\"u\":1,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":5,\"s\":5,\"y\":5},{\"n\":\"f2\",\"i\":2,\"k\":3,\"s\":5,\"y\":5},{\"n\":\"f3\",\"i\":3,\"k\":13,\"s\":5,\"y\":5},{\"n\":\"f4\",\"i\":4,\"k\":4,\"s\":5,\"y\":5},{\"n\":\"f5\",\"i\":5,\"k\":17,\"s\":5,\"y\":5},{\"n\":\"f6\",\"i\":6,\"k\":18,\"s\":5,\"y\":5},{\"n\":\"f7\",\"i\":7,\"k\":7,\"s\":5,\"y\":5},{\"n\":\"f8\",\"i\":8,\"k\":6,\"s\":5,\"y\":5},{\"n\":\"f9\",\"i\":9,\"k\":15,\"s\":5,\"y\":5},{\"n\":\"f10\",\"i\":10,\"k\":16,\"s\":5,\"y\":5},{\"n\":\"f11\",\"i\":11,\"k\":2,\"s\":5,\"y\":5},{\"n\":\"f12\",\"i\":12,\"k\":1,\"s\":5,\"y\":5},{\"n\":\"f13\",\"i\":13,\"k\":8,\"s\":5,\"y\":5},{\"n\":\"f14\",\"i\":14,\"k\":14,\"s\":5,\"y\":5},{\"n\":\"f15\",\"i\":15,\"k\":9,\"s\":5,\"y\":5},{\"n\":\"f16\",\"i\":16,\"k\":12,\"s\":5,\"y\":5},{\"n\":\"f17\",\"i\":17,\"k\":11,\"s\":5,\"y\":5,\"m\":205}]},{\"name\":\"Maps1\",\"u\":1,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":5,\"s\":5,\"y\":3},{\"n\":\"f2\",\"i\":2,\"k\":3,\"s\":5,\"y\":3},{\"n\":\"f3\",\"i\":3,\"k\":13,\"s\":5,\"y\":3},{\"n\":\"f4\",\"i\":4,\"k\":4,\"s\":5,\"y\":3},{\"n\":\"f5\",\"i\":5,\"k\":17,\"s\":5,\"y\":3},{\"n\":\"f6\",\"i\":6,\"k\":18,\"s\":5,\"y\":3},{\"n\":\"f7\",\"i\":7,\"k\":7,\"s\":5,\"y\":3},{\"n\":\"f8\",\"i\":8,\"k\":6,\"s\":5,\"y\":3},{\"n\":\"f9\",\"i\":9,\"k\":15,\"s\":5,\"y\":3},{\"n\":\"f10\",\"i\":10,\"k\":16,\"s\":5,\"y\":3},{\"n\":\"f11\",\"i\":11,\"k\":2,\"s\":5,\"y\":3},{\"n\":\"f12\",\"i\":12,\"k\":1,\"s\":5,\"y\":3},{\"n\":\"f13\",\"i\":13,\"k\":8,\"s\":5,\"y\":3},{\"n\":\"f14\",\"i\":14,\"k\":14,\"s\":5,\"y\":3},{\"n\":\"f15\",\"i\":15,\"k\":9,\"s\":5,\"y\":3},{\"n\":\"f16\",\"i\":16,\"k\":12,\"s\":5,\"y\":3},{\"n\":\"f17\",\"i\":17,\"k\":11,\"s\":5,\"y\":3,\"m\":205}]},{\"name\":\"Maps2\",\"u\":1,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":5,\"s\":5,\"y\":13},{\"n\":\"f2\",\"i\":2,\"k\":3,\"s\":5,\"y\":13},{\"n\":\"f3\",\"i\":3,\"k\":13,\"s\":5,\"y\":13},{\"n\":\"f4\",\"i\":4,\"k\":4,\"s\":5,\"y\":13},{\"n\":\"f5\",\"i\":5,\"k\":17,\"s\":5,\"y\":13},{\"n\":\"f6\",\"i\":6,\"k\":18,\"s\":5,\"y\":13},{\"n\":\"f7\",\"i\":7,\"k\":7,\"s\":5,\"y\":13},{\"n\":\"f8\",\"i\":8,\"k\":6,\"s\":5,\"y\":13},{\"n\":\"f9\",\"i\":9,\"k\":15,\"s\":5,\"y\":13},{\"n\":\"f10\",\"i\":10,\"k\":16,\"s\":5,\"y\":13},{\"n\":\"f11\",\"i\":11,\"k\":2,\"s\":5,\"y\":13},{\"n\":\"f12\",\"i\":12,\"k\":1,\"s\":5,\"y\":13},{\"n\":\"f13\",\"i\":13,\"k\":8,\"s\":5,\"y\":13},{\"n\":\"f14\",\"i\":14,\"k\":14,\"s\":5,\"y\":13},{\"n\":\"f15\",\"i\":15,\"k\":9,\"s\":5,\"y\":13},{\"n\":\"f16\",\"i\":16,\"k\":12,\"s\":5,\"y\":13},{\"n\":\"f17\",\"i\":17,\"k\":11,\"s\":5,\"y\":13,\"m\":205}]},{\"name\":\"Maps3\",\"u\":1,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":5,\"s\":5,\"y\":4},{\"n\":\"f2\",\"i\":2,\"k\":3,\"s\":5,\"y\":4},{\"n\":\"f3\",\"i\":3,\"k\":13,\"s\":5,\"y\":4},{\"n\":\"f4\",\"i\":4,\"k\":4,\"s\":5,\"y\":4},{\"n\":\"f5\",\"i\":5,\"k\":17,\"s\":5,\"y\":4},{\"n\":\"f6\",\"i\":6,\"k\":18,\"s\":5,\"y\":4},{\"n\":\"f7\",\"i\":7,\"k\":7,\"s\":5,\"y\":4},{\"n\":\"f8\",\"i\":8,\"k\":6,\"s\":5,\"y\":4},{\"n\":\"f9\",\"i\":9,\"k\":15,\"s\":5,\"y\":4},{\"n\":\"f10\",\"i\":10,\"k\":16,\"s\":5,\"y\":4},{\"n\":\"f11\",\"i\":11,\"k\":2,\"s\":5,\"y\":4},{\"n\":\"f12\",\"i\":12,\"k\":1,\"s\":5,\"y\":4},{\"n\":\"f13\",\"i\":13,\"k\":8,\"s\":5,\"y\":4},{\"n\":\"f14\",\"i\":14,\"k\":14,\"s\":5,\"y\":4},{\"n\":\"f15\",\"i\":15,\"k\":9,\"s\":5,\"y\":4},{\"n\":\"f16\",\"i\":16,\"k\":12,\"s\":5,\"y\":4},{\"n\":\"f17\",\"i\":17,\"k\":11,\"s\":5,\"y\":4,\"m\":205}]},{\"name\":\"Maps4\",\"u\":1,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":5,\"s\":5,\"y\":17},{\"n\":\"f2\",\"i\":2,\"k\":3,\"s\":5,\"y\":17},{\"n\":\"f3\",\"i\":3,\"k\":13,\"s\":5,\"y\":17},{\"n\":\"f4\",\"i\":4,\"k\":4,\"s\":5,\"y\":17},{\"n\":\"f5\",\"i\":5,\"k\":17,\"s\":5,\"y\":17},{\"n\":\"f6\",\"i\":6,\"k\":18,\"s\":5,\"y\":17},{\"n\":\"f7\",\"i\":7,\"k\":7,\"s\":5,\"y\":17},{\"n\":\"f8\",\"i\":8,\"k\":6,\"s\":5,\"y\":17},{\"n\":\"f9\",\"i\":9,\"k\":15,\"s\":5,\"y\":17},{\"n\":\"f10\",\"i\":10,\"k\":16,\"s\":5,\"y\":17},{\"n\":\"f11\",\"i\":11,\"k\":2,\"s\":5,\"y\":17},{\"n\":\"f12\",\"i\":12,\"k\":1,\"s\":5,\"y\":17},{\"n\":\"f13\",\"i\":13,\"k\":8,\"s\":5,\"y\":17},{\"n\":\"f14\",\"i\":14,\"k\":14,\"s\":5,\"y\":17},{\"n\":\"f15\",\"i\":15,\"k\":9,\"s\":5,\"y\":17},{\"n\":\"f16\",\"i\":16,\"k\":12,\"s\":5,\"y\":17},{\"n\":\"f17\",\"i\":17,\"k\":11,\"s\":5,\"y\":17,\"m\":205}]},{\"name\":\"Maps5\",\"u\":1,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":5,\"s\":5,\"y\":18},{\"n\":\"f2\",\"i\":2,\"k\":3,\"s\":5,\"y\":18},{\"n\":\"f3\",\"i\":3,\"k\":13,\"s\":5,\"y\":18},{\"n\":\"f4\",\"i\":4,\"k\":4,\"s\":5,\"y\":18},{\"n\":\"f5\",\"i\":5,\"k\":17,\"s\":5,\"y\":18},{\"n\":\"f6\",\"i\":6,\"k\":18,\"s\":5,\"y\":18},{\"n\":\"f7\",\"i\":7,\"k\":7,\"s\":5,\"y\":18},{\"n\":\"f8\",\"i\":8,\"k\":6,\"s\":5,\"y\":18},{\"n\":\"f9\",\"i\":9,\"k\":15,\"s\":5,\"y\":18},{\"n\":\"f10\",\"i\":10,\"k\":16,\"s\":5,\"y\":18},{\"n\":\"f11\",\"i\":11,\"k\":2,\"s\":5,\"y\":18},{\"n\":\"f12\",\"i\":12,\"k\":1,\"s\":5,\"y\":18},{\"n\":\"f13\",\"i\":13,\"k\":8,\"s\":5,\"y\":18},{\"n\":\"f14\",\"i\":14,\"k\":14,\"s\":5,\"y\":18},{\"n\":\"f15\",\"i\":15,\"k\":9,\"s\":5,\"y\":18},{\"n\":\"f16\",\"i\":16,\"k\":12,\"s\":5,\"y\":18},{\"n\":\"f17\",\"i\":17,\"k\":11,\"s\":5,\"y\":18,\"m\":205}]},{\"name\":\"Maps6\",\"u\":1,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":5,\"s\":5,\"y\":7},{\"n\":\"f2\",\"i\":2,\"k\":3,\"s\":5,\"y\":7},{\"n\":\"f3\",\"i\":3,\"k\":13,\"s\":5,\"y\":7},{\"n\":\"f4\",\"i\":4,\"k\":4,\"s\":5,\"y\":7},{\"n\":\"f5\",\"i\":5,\"k\":17,\"s\":5,\"y\":7},{\"n\":\"f6\",\"i\":6,\"k\":18,\"s\":5,\"y\":7},{\"n\":\"f7\",\"i\":7,\"k\":7,\"s\":5,\"y\":7},{\"n\":\"f8\",\"i\":8,\"k\":6,\"s\":5,\"y\":7},{\"n\":\"f9\",\"i\":9,\"k\":15,\"s\":5,\"y\":7},{\"n\":\"f10\",\"i\":10,\"k\":16,\"s\":5,\"y\":7},{\"n\":\"f11\",\"i\":11,\"k\":2,\"s\":5,\"y\":7},{\"n\":\"f12\",\"i\":12,\"k\":1,\"s\":5,\"y\":7},{\"n\":\"f13\",\"i\":13,\"k\":8,\"s\":5,\"y\":7},{\"n\":\"f14\",\"i\":14,\"k\":14,\"s\":5,\"y\":7},{\"n\":\"f15\",\"i\":15,\"k\":9,\"s\":5,\"y\":7},{\"n\":\"f16\",\"i\":16,\"k\":12,\"s\":5,\"y\":7},{\"n\":\"f17\",\"i\":17,\"k\":11,\"s\":5,\"y\":7,\"m\":205}]},{\"name\":\"Maps7\",\"u\":1,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":5,\"s\":5,\"y\":6},{\"n\":\"f2\",\"i\":2,\"k\":3,\"s\":5,\"y\":6},{\"n\":\"f3\",\"i\":3,\"k\":13,\"s\":5,\"y\":6},{\"n\":\"f4\",\"i\":4,\"k\":4,\"s\":5,\"y\":6},{\"n\":\"f5\",\"i\":5,\"k\":17,\"s\":5,\"y\":6},{\"n\":\"f6\",\"i\":6,\"k\":18,\"s\":5,\"y\":6},{\"n\":\"f7\",\"i\":7,\"k\":7,\"s\":5,\"y\":6},{\"n\":\"f8\",\"i\":8,\"k\":6,\"s\":5,\"y\":6},{\"n\":\"f9\",\"i\":9,\"k\":15,\"s\":5,\"y\":6},{\"n\":\"f10\",\"i\":10,\"k\":16,\"s\":5,\"y\":6},{\"n\":\"f11\",\"i\":11,\"k\":2,\"s\":5,\"y\":6},{\"n\":\"f12\",\"i\":12,\"k\":1,\"s\":5,\"y\":6},{\"n\":\"f13\",\"i\":13,\"k\":8,\"s\":5,\"y\":6},{\"n\":\"f14\",\"i\":14,\"k\":14,\"s\":5,\"y\":6},{\"n\":\"f15\",\"i\":15,\"k\":9,\"s\":5,\"y\":6},{\"n\":\"f16\",\"i\":16,\"k\":12,\"s\":5,\"y\":6},{\"n\":\"f17\",\"i\":17,\"k\":11,\"s\":5,\"y\":6,\"m\":205}]},{\"name\":\"Maps8\",\"u\":1,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":5,\"s\":5,\"y\":15},{\"n\":\"f2\",\"i\":2,\"k\":3,\"s\":5,\"y\":15},{\"n\":\"f3\",\"i\":3,\"k\":13,\"s\":5,\"y\":15},{\"n\":\"f4\",\"i\":4,\"k\":4,\"s\":5,\"y\":15},{\"n\":\"f5\",\"i\":5,\"k\":17,\"s\":5,\"y\":15},{\"n\":\"f6\",\"i\":6,\"k\":18,\"s\":5,\"y\":15},{\"n\":\"f7\",\"i\":7,\"k\":7,\"s\":5,\"y\":15},{\"n\":\"f8\",\"i\":8,\"k\":6,\"s\":5,\"y\":15},{\"n\":\"f9\",\"i\":9,\"k\":15,\"s\":5,\"y\":15},{\"n\":\"f10\",\"i\":10,\"k\":16,\"s\":5,\"y\":15},{\"n\":\"f11\",\"i\":11,\"k\":2,\"s\":5,\"y\":15},{\"n\":\"f12\",\"i\":12,\"k\":1,\"s\":5,\"y\":15},{\"n\":\"f13\",\"i\":13,\"k\":8,\"s\":5,\"y\":15},{\"n\":\"f14\",\"i\":14,\"k\":14,\"s\":5,\"y\":15},{\"n\":\"f15\",\"i\":15,\"k\":9,\"s\":5,\"y\":15},{\"n\":\"f16\",\"i\":16,\"k\":12,\"s\":5,\"y\":15},{\"n\":\"f17\",\"i\":17,\"k\":11,\"s\":5,\"y\":15,\"m\":205}]},{\"name\":\"Maps9\",\"u\":1,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":5,\"s\":5,\"y\":16},{\"n\":\"f2\",\"i\":2,\"k\":3,\"s\":5,\"y\":16},{\"n\":\"f3\",\"i\":3,\"k\":13,\"s\":5,\"y\":16},{\"n\":\"f4\",\"i\":4,\"k\":4,\"s\":5,\"y\":16},{\"n\":\"f5\",\"i\":5,\"k\":17,\"s\":5,\"y\":16},{\"n\":\"f6\",\"i\":6,\"k\":18,\"s\":5,\"y\":16},{\"n\":\"f7\",\"i\":7,\"k\":7,\"s\":5,\"y\":16},{\"n\":\"f8\",\"i\":8,\"k\":6,\"s\":5,\"y\":16},{\"n\":\"f9\",\"i\":9,\"k\":15,\"s\":5,\"y\":16},{\"n\":\"f10\",\"i\":10,\"k\":16,\"s\":5,\"y\":16},{\"n\":\"f11\",\"i\":11,\"k\":2,\"s\":5,\"y\":16},{\"n\":\"f12\",\"i\":12,\"k\":1,\"s\":5,\"y\":16},{\"n\":\"f13\",\"i\":13,\"k\":8,\"s\":5,\"y\":16},{\"n\":\"f14\",\"i\":14,\"k\":14,\"s\":5,\"y\":16},{\"n\":\"f15\",\"i\":15,\"k\":9,\"s\":5,\"y\":16},{\"n\":\"f16\",\"i\":16,\"k\":12,\"s\":5,\"y\":16},{\"n\":\"f17\",\"i\":17,\"k\":11,\"s\":5,\"y\":16,\"m\":205}]},{\"name\":\"Maps10\",\"u\":1,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":5,\"s\":5,\"y\":8},{\"n\":\"f2\",\"i\":2,\"k\":3,\"s\":5,\"y\":8},{\"n\":\"f3\",\"i\":3,\"k\":13,\"s\":5,\"y\":8},{\"n\":\"f4\",\"i\":4,\"k\":4,\"s\":5,\"y\":8},{\"n\":\"f5\",\"i\":5,\"k\":17,\"s\":5,\"y\":8},{\"n\":\"f6\",\"i\":6,\"k\":18,\"s\":5,\"y\":8},{\"n\":\"f7\",\"i\":7,\"k\":7,\"s\":5,\"y\":8},{\"n\":\"f8\",\"i\":8,\"k\":6,\"s\":5,\"y\":8},{\"n\":\"f9\",\"i\":9,\"k\":15,\"s\":5,\"y\":8},{\"n\":\"f10\",\"i\":10,\"k\":16,\"s\":5,\"y\":8},{\"n\":\"f11\",\"i\":11,\"k\":2,\"s\":5,\"y\":8},{\"n\":\"f12\",\"i\":12,\"k\":1,\"s\":5,\"y\":8},{\"n\":\"f13\",\"i\":13,\"k\":8,\"s\":5,\"y\":8},{\"n\":\"f14\",\"i\":14,\"k\":14,\"s\":5,\"y\":8},{\"n\":\"f15\",\"i\":15,\"k\":9,\"s\":5,\"y\":8},{\"n\":\"f16\",\"i\":16,\"k\":12,\"s\":5,\"y\":8},{\"n\":\"f17\",\"i\":17,\"k\":11,\"s\":5,\"y\":8,\"m\":205}]},{\"name\":\"Maps11\",\"u\":1,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":5,\"s\":5,\"y\":9},{\"n\":\"f2\",\"i\":2,\"k\":3,\"s\":5,\"y\":9},{\"n\":\"f3\",\"i\":3,\"k\":13,\"s\":5,\"y\":9},{\"n\":\"f4\",\"i\":4,\"k\":4,\"s\":5,\"y\":9},{\"n\":\"f5\",\"i\":5,\"k\":17,\"s\":5,\"y\":9},{\"n\":\"f6\",\"i\":6,\"k\":18,\"s\":5,\"y\":9},{\"n\":\"f7\",\"i\":7,\"k\":7,\"s\":5,\"y\":9},{\"n\":\"f8\",\"i\":8,\"k\":6,\"s\":5,\"y\":9},{\"n\":\"f9\",\"i\":9,\"k\":15,\"s\":5,\"y\":9},{\"n\":\"f10\",\"i\":10,\"k\":16,\"s\":5,\"y\":9},{\"n\":\"f11\",\"i\":11,\"k\":2,\"s\":5,\"y\":9},{\"n\":\"f12\",\"i\":12,\"k\":1,\"s\":5,\"y\":9},{\"n\":\"f13\",\"i\":13,\"k\":8,\"s\":5,\"y\":9},{\"n\":\"f14\",\"i\":14,\"k\":14,\"s\":5,\"y\":9},{\"n\":\"f15\",\"i\":15,\"k\":9,\"s\":5,\"y\":9},{\"n\":\"f16\",\"i\":16,\"k\":12,\"s\":5,\"y\":9},{\"n\":\"f17\",\"i\":17,\"k\":11,\"s\":5,\"y\":9,\"m\":205}]},{\"name\":\"BigOneof\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":5,\"s\":6},{\"n\":\"f15\",\"i\":15,\"k\":3,\"s\":6},{\"n\":\"f16\",\"i\":16,\"k\":13,\"s\":6},{\"n\":\"f999\",\"i\":999,\"k\":4,\"s\":6},{\"n\":\"f1000\",\"i\":1000,\"k\":17,\"s\":6},{\"n\":\"f1001\",\"i\":1001,\"k\":18,\"s\":6},{\"n\":\"f1002\",\"i\":1002,\"k\":7,\"s\":6},{\"n\":\"f2047\",\"i\":2047,\"k\":6,\"s\":6},{\"n\":\"f2048\",\"i\":2048,\"k\":15,\"s\":6},{\"n\":\"f262143\",\"i\":262143,\"k\":16,\"s\":6},{\"n\":\"f262144\",\"i\":262144,\"k\":2,\"s\":6},{\"n\":\"f33554431\",\"i\":33554431,\"k\":1,\"s\":6},{\"n\":\"f33554432\",\"i\":33554432,\"k\":8,\"s\":6},{\"n\":\"f536870911\",\"i\":536870911,\"k\":14,\"s\":6},{\"n\":\"f536870910\",\"i\":536870910,\"k\":9,\"s\":6},{\"n\":\"f17\",\"i\":17,\"k\":12,\"s\":6},{\"n\":\"f500\",\"i\":500,\"k\":11,\"s\":6,\"m\":205},{\"n\":\"f501\",\"i\":501,\"k\":11,\"s\":6,\"m\":49},{\"n\":\"f502\",\"i\":502,\"k\":8}]},{\"name\":\"S0M2\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f4\",\"i\":4,\"k\":2,\"s\":6},{\"n\":\"f14\",\"i\":14,\"k\":17,\"s\":6},{\"n\":\"f1\",\"i\":1,\"k\":9,\"s\":1}]},{\"name\":\"S0M3\",\"u\":1,\"f\":[{\"n\":\"f4\",\"i\":4,\"k\":11,\"s\":4,\"m\":70},{\"n\":\"f995\",\"i\":995,\"k\":18,\"s\":1},{\"n\":\"f25\",\"i\":25,\"k\":7},{\"n\":\"f18999\",\"i\":18999,\"k\":2},{\"n\":\"f374\",\"i\":374,\"k\":14,\"s\":1},{\"n\":\"f33554431\",\"i\":33554431,\"k\":11,\"s\":1,\"m\":71},{\"n\":\"f182\",\"i\":182,\"k\":4},{\"n\":\"f3\",\"i\":3,\"k\":6,\"s\":1},{\"n\":\"f7\",\"i\":7,\"k\":11,\"s\":5,\"y\":3,\"m\":72}]},{\"name\":\"S0M4\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f6\",\"i\":6,\"k\":9,\"s\":4},{\"n\":\"f20000\",\"i\":20000,\"k\":15,\"s\":6},{\"n\":\"f13\",\"i\":13,\"k\":18,\"s\":4,\"p\":true}]},{\"name\":\"S0M5\",\"o\":2,\"u\":1,\"f\":[{\"n\":\"f24\",\"i\":24,\"k\":15,\"s\":6},{\"n\":\"f1006\",\"i\":1006,\"k\":8,\"s\":5,\"y\":6},{\"n\":\"f719\",\"i\":719,\"k\":15},{\"n\":\"f9\",\"i\":9,\"k\":12,\"s\":4},{\"n\":\"f19\",\"i\":19,\"k\":9,\"s\":5,\"y\":18},{\"n\":\"f618\",\"i\":618,\"k\":18},{\"n\":\"f662\",\"i\":662,\"k\":1,\"s\":1},{\"n\":\"f16\",\"i\":16,\"k\":14,\"s\":6,\"o\":1},{\"n\":\"f10\",\"i\":10,\"k\":13,\"s\":6,\"o\":1},{\"n\":\"f3\",\"i\":3,\"k\":13,\"s\":5,\"y\":17}]},{\"name\":\"S0M6\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f11\",\"i\":11,\"k\":6},{\"n\":\"f8\",\"i\":8,\"k\":18,\"s\":6},{\"n\":\"f13\",\"i\":13,\"k\":2,\"s\":1},{\"n\":\"f543\",\"i\":543,\"k\":9,\"s\":4}]},{\"name\":\"S0M7\",\"u\":1,\"f\":[{\"n\":\"f998\",\"i\":998,\"k\":18},{\"n\":\"f447\",\"i\":447,\"k\":11,\"s\":4,\"m\":71},{\"n\":\"f4\",\"i\":4,\"k\":1,\"s\":1}]},{\"name\":\"S1M2\",\"u\":1,\"f\":[{\"n\":\"f215\",\"i\":215,\"k\":1,\"s\":1},{\"n\":\"f10\",\"i\":10,\"k\":12,\"s\":1},{\"n\":\"f11\",\"i\":11,\"k\":15}]},{\"name\":\"S2M2\",\"u\":1,\"f\":[{\"n\":\"f3\",\"i\":3,\"k\":3,\"s\":5,\"y\":3},{\"n\":\"f4\",\"i\":4,\"k\":3},{\"n\":\"f32\",\"i\":32,\"k\":2,\"s\":1}]},{\"name\":\"S2M3\",\"u\":1,\"f\":[{\"n\":\"f244\",\"i\":244,\"k\":11,\"s\":1,\"m\":77},{\"n\":\"f13\",\"i\":13,\"k\":17,\"s\":1},{\"n\":\"f17\",\"i\":17,\"k\":6},{\"n\":\"f3\",\"i\":3,\"k\":8,\"s\":1},{\"n\":\"f12\",\"i\":12,\"k\":2,\"s\":1},{\"n\":\"f14\",\"i\":14,\"k\":18},{\"n\":\"f51084766\",\"i\":51084766,\"k\":13,\"s\":5,\"y\":17}]},{\"name\":\"S2M4\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f18\",\"i\":18,\"k\":4,\"s\":6},{\"n\":\"f998\",\"i\":998,\"k\":5}]},{\"name\":\"S2M5\",\"u\":1,\"f\":[{\"n\":\"f1006\",\"i\":1006,\"k\":15,\"s\":1},{\"n\":\"f6\",\"i\":6,\"k\":14,\"s\":3},{\"n\":\"f12\",\"i\":12,\"k\":9,\"s\":5,\"y\":17},{\"n\":\"f3\",\"i\":3,\"k\":11,\"s\":4,\"m\":79}]},{\"name\":\"S2M6\",\"u\":1,\"f\":[{\"n\":\"f5\",\"i\":5,\"k\":1,\"s\":1},{\"n\":\"f38\",\"i\":38,\"k\":1},{\"n\":\"f14\",\"i\":14,\"k\":7},{\"n\":\"f12\",\"i\":12,\"k\":3,\"s\":4,\"p\":true},{\"n\":\"f13\",\"i\":13,\"k\":16,\"s\":4,\"p\":true}]},{\"name\":\"S4M2\",\"u\":1,\"f\":[{\"n\":\"f4\",\"i\":4,\"k\":3,\"s\":4,\"p\":true},{\"n\":\"f5\",\"i\":5,\"k\":9,\"s\":5,\"y\":18},{\"n\":\"f6\",\"i\":6,\"k\":17,\"s\":5,\"y\":6},{\"n\":\"f319\",\"i\":319,\"k\":9,\"s\":1}]},{\"name\":\"S4M3\",\"u\":1,\"f\":[{\"n\":\"f8\",\"i\":8,\"k\":16}]},{\"name\":\"S4M4\",\"u\":1,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":7,\"s\":5,\"y\":18},{\"n\":\"f8\",\"i\":8,\"k\":4,\"s\":4},{\"n\":\"f13\",\"i\":13,\"k\":8,\"s\":4},{\"n\":\"f999\",\"i\":999,\"k\":11,\"s\":4,\"m\":81},{\"n\":\"f996\",\"i\":996,\"k\":14},{\"n\":\"f7\",\"i\":7,\"k\":6},{\"n\":\"f2047\",\"i\":2047,\"k\":11,\"s\":1,\"m\":80},{\"n\":\"f32\",\"i\":32,\"k\":3,\"s\":5,\"y\":5},{\"n\":\"f995\",\"i\":995,\"k\":1,\"s\":1}]},{\"name\":\"S5M2\",\"u\":1,\"f\":[{\"n\":\"f10\",\"i\":10,\"k\":4,\"s\":3},{\"n\":\"f5\",\"i\":5,\"k\":12},{\"n\":\"f1\",\"i\":1,\"k\":11,\"s\":1,\"m\":84}]},{\"name\":\"S5M3\",\"u\":1,\"f\":[{\"n\":\"f2\",\"i\":2,\"k\":5,\"s\":4,\"p\":true},{\"n\":\"f35\",\"i\":35,\"k\":12,\"s\":4},{\"n\":\"f3\",\"i\":3,\"k\":14},{\"n\":\"f179418204\",\"i\":179418204,\"k\":18,\"s\":1},{\"n\":\"f1002\",\"i\":1002,\"k\":3},{\"n\":\"f18999\",\"i\":18999,\"k\":1}]},{\"name\":\"S5M4\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f1003\",\"i\":1003,\"k\":7,\"s\":6},{\"n\":\"f38\",\"i\":38,\"k\":16},{\"n\":\"f12\",\"i\":12,\"k\":14,\"s\":1},{\"n\":\"f26\",\"i\":26,\"k\":14,\"s\":4}]},{\"name\":\"S7M2\",\"u\":1,\"f\":[{\"n\":\"f13\",\"i\":13,\"k\":5,\"s\":5,\"y\":15},{\"n\":\"f3\",\"i\":3,\"k\":5,\"s\":4},{\"n\":\"f145035270\",\"i\":145035270,\"k\":11,\"s\":1,\"m\":87},{\"n\":\"f4\",\"i\":4,\"k\":14,\"s\":1},{\"n\":\"f977\",\"i\":977,\"k\":6,\"s\":3},{\"n\":\"f2\",\"i\":2,\"k\":17}]},{\"name\":\"S7M3\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f203293200\",\"i\":203293200,\"k\":16,\"s\":4},{\"n\":\"f3\",\"i\":3,\"k\":18,\"s\":4,\"p\":true},{\"n\":\"f6\",\"i\":6,\"k\":5,\"s\":6},{\"n\":\"f1005\",\"i\":1005,\"k\":5,\"s\":1},{\"n\":\"f38\",\"i\":38,\"k\":13,\"s\":4},{\"n\":\"f10\",\"i\":10,\"k\":8},{\"n\":\"f262143\",\"i\":262143,\"k\":4,\"s\":6},{\"n\":\"f25\",\"i\":25,\"k\":1,\"s\":1}]},{\"name\":\"S9M2\",\"u\":1,\"f\":[{\"n\":\"f998\",\"i\":998,\"k\":11,\"s\":4,\"m\":89},{\"n\":\"f5\",\"i\":5,\"k\":6},{\"n\":\"f1006\",\"i\":1006,\"k\":11,\"s\":3,\"m\":90},{\"n\":\"f20000\",\"i\":20000,\"k\":11,\"s\":1,\"m\":91}]},{\"name\":\"S9M3\",\"u\":1,\"f\":[{\"n\":\"f6\",\"i\":6,\"k\":14,\"s\":1},{\"n\":\"f479\",\"i\":479,\"k\":4,\"s\":1},{\"n\":\"f995\",\"i\":995,\"k\":17,\"s\":3},{\"n\":\"f3\",\"i\":3,\"k\":12,\"s\":4},{\"n\":\"f37\",\"i\":37,\"k\":13,\"s\":1},{\"n\":\"f996\",\"i\":996,\"k\":15},{\"n\":\"f5\",\"i\":5,\"k\":14,\"s\":4,\"p\":true},{\"n\":\"f28\",\"i\":28,\"k\":12,\"s\":4}]},{\"name\":\"S9M4\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f69\",\"i\":69,\"k\":3,\"s\":5,\"y\":4},{\"n\":\"f1\",\"i\":1,\"k\":7,\"s\":5,\"y\":9},{\"n\":\"f282239034\",\"i\":282239034,\"k\":7},{\"n\":\"f9\",\"i\":9,\"k\":8,\"s\":6},{\"n\":\"f13\",\"i\":13,\"k\":7}]},{\"name\":\"S9M5\",\"u\":1,\"f\":[{\"n\":\"f16154991\",\"i\":16154991,\"k\":15,\"s\":1}]},{\"name\":\"S10M2\",\"u\":1,\"f\":[{\"n\":\"f14\",\"i\":14,\"k\":5,\"s\":4},{\"n\":\"f7\",\"i\":7,\"k\":17},{\"n\":\"f4\",\"i\":4,\"k\":11,\"s\":5,\"y\":5,\"m\":93},{\"n\":\"f5\",\"i\":5,\"k\":12,\"s\":1},{\"n\":\"f428859739\",\"i\":428859739,\"k\":5,\"s\":4,\"p\":true},{\"n\":\"f6\",\"i\":6,\"k\":13,\"s\":1},{\"n\":\"f12\",\"i\":12,\"k\":6}]},{\"name\":\"S10M3\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f902\",\"i\":902,\"k\":14},{\"n\":\"f410\",\"i\":410,\"k\":12,\"s\":6},{\"n\":\"f999\",\"i\":999,\"k\":15,\"s\":6},{\"n\":\"f1003\",\"i\":1003,\"k\":2,\"s\":6}]},{\"name\":\"S10M4\",\"u\":1,\"f\":[{\"n\":\"f2\",\"i\":2,\"k\":14},{\"n\":\"f262144\",\"i\":262144,\"k\":11,\"s\":1,\"m\":93},{\"n\":\"f39\",\"i\":39,\"k\":6,\"s\":5,\"y\":5},{\"n\":\"f1005\",\"i\":1005,\"k\":11,\"s\":4,\"m\":95}]},{\"name\":\"S10M5\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f25\",\"i\":25,\"k\":9,\"s\":6},{\"n\":\"f997\",\"i\":997,\"k\":8,\"s\":5,\"y\":5},{\"n\":\"f4\",\"i\":4,\"k\":4,\"s\":1},{\"n\":\"f5\",\"i\":5,\"k\":3,\"s\":4}]},{\"name\":\"S10M6\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f357298165\",\"i\":357298165,\"k\":12,\"s\":4},{\"n\":\"f1\",\"i\":1,\"k\":14,\"s\":6},{\"n\":\"f375\",\"i\":375,\"k\":2,\"s\":6}]},{\"name\":\"S11M2\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f1002\",\"i\":1002,\"k\":7,\"s\":3},{\"n\":\"f3\",\"i\":3,\"k\":6,\"s\":6}]},{\"name\":\"S12M2\",\"u\":1,\"f\":[{\"n\":\"f528\",\"i\":528,\"k\":11,\"s\":1,\"m\":99}]},{\"name\":\"S12M3\",\"u\":1,\"f\":[{\"n\":\"f536870911\",\"i\":536870911,\"k\":1,\"s\":1},{\"n\":\"f37\",\"i\":37,\"k\":16},{\"n\":\"f15\",\"i\":15,\"k\":1,\"s\":3},{\"n\":\"f8\",\"i\":8,\"k\":14,\"s\":5,\"y\":4},{\"n\":\"f38\",\"i\":38,\"k\":15,\"s\":1},{\"n\":\"f1008\",\"i\":1008,\"k\":8,\"s\":1},{\"n\":\"f1000\",\"i\":1000,\"k\":9,\"s\":1},{\"n\":\"f1006\",\"i\":1006,\"k\":18,\"s\":4},{\"n\":\"f2\",\"i\":2,\"k\":1,\"s\":4,\"p\":true},{\"n\":\"f11\",\"i\":11,\"k\":2}]},{\"name\":\"S12M4\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f38\",\"i\":38,\"k\":2,\"s\":4,\"p\":true},{\"n\":\"f1006\",\"i\":1006,\"k\":11,\"s\":1,\"m\":101},{\"n\":\"f15\",\"i\":15,\"k\":11,\"s\":6,\"m\":102},{\"n\":\"f999\",\"i\":999,\"k\":17,\"s\":6},{\"n\":\"f10\",\"i\":10,\"k\":8,\"s\":6},{\"n\":\"f8\",\"i\":8,\"k\":11,\"s\":1,\"m\":103},{\"n\":\"f3\",\"i\":3,\"k\":12,\"s\":6}]},{\"name\":\"S12M5\",\"u\":1,\"f\":[{\"n\":\"f33554432\",\"i\":33554432,\"k\":7}]},{\"name\":\"S12M6\",\"u\":1,\"f\":[{\"n\":\"f8\",\"i\":8,\"k\":3,\"s\":1},{\"n\":\"f7\",\"i\":7,\"k\":1,\"s\":5,\"y\":9}]},{\"name\":\"S12M7\",\"u\":1,\"f\":[{\"n\":\"f19\",\"i\":19,\"k\":1,\"s\":4,\"p\":true},{\"n\":\"f23\",\"i\":23,\"k\":4,\"s\":4,\"p\":true},{\"n\":\"f10\",\"i\":10,\"k\":7,\"s\":1},{\"n\":\"f11\",\"i\":11,\"k\":8},{\"n\":\"f777\",\"i\":777,\"k\":7}]},{\"name\":\"S12M8\",\"u\":1,\"f\":[{\"n\":\"f5\",\"i\":5,\"k\":6}]},{\"name\":\"S13M2\",\"u\":1,\"f\":[{\"n\":\"f7\",\"i\":7,\"k\":7,\"s\":4,\"p\":true},{\"n\":\"f2\",\"i\":2,\"k\":11,\"s\":1,\"m\":106},{\"n\":\"f11\",\"i\":11,\"k\":14},{\"n\":\"f920\",\"i\":920,\"k\":11,\"s\":5,\"y\":13,\"m\":107},{\"n\":\"f3\",\"i\":3,\"k\":7},{\"n\":\"f700\",\"i\":700,\"k\":1,\"s\":4},{\"n\":\"f19\",\"i\":19,\"k\":11,\"s\":5,\"y\":3,\"m\":108}]},{\"name\":\"S13M3\",\"u\":1,\"f\":[{\"n\":\"f13\",\"i\":13,\"k\":18},{\"n\":\"f2\",\"i\":2,\"k\":18,\"s\":1},{\"n\":\"f14\",\"i\":14,\"k\":15,\"s\":4,\"p\":true},{\"n\":\"f1000\",\"i\":1000,\"k\":2}]},{\"name\":\"S13M4\",\"u\":1,\"f\":[{\"n\":\"f88060806\",\"i\":88060806,\"k\":8,\"s\":4},{\"n\":\"f14\",\"i\":14,\"k\":7,\"s\":4,\"p\":true},{\"n\":\"f20000\",\"i\":20000,\"k\":9},{\"n\":\"f11\",\"i\":11,\"k\":18,\"s\":4,\"p\":true},{\"n\":\"f1003\",\"i\":1003,\"k\":14},{\"n\":\"f13\",\"i\":13,\"k\":4,\"s\":1},{\"n\":\"f12\",\"i\":12,\"k\":7,\"s\":5,\"y\":5},{\"n\":\"f35\",\"i\":35,\"k\":6}]},{\"name\":\"S13M5\",\"u\":1,\"f\":[{\"n\":\"f5\",\"i\":5,\"k\":17,\"s\":4,\"p\":true},{\"n\":\"f203781525\",\"i\":203781525,\"k\":8,\"s\":1},{\"n\":\"f337848773\",\"i\":337848773,\"k\":18},{\"n\":\"f11\",\"i\":11,\"k\":2,\"s\":1},{\"n\":\"f15\",\"i\":15,\"k\":7}]},{\"name\":\"S14M2\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":3,\"s\":4,\"p\":true},{\"n\":\"f378\",\"i\":378,\"k\":8,\"s\":4},{\"n\":\"f14\",\"i\":14,\"k\":1,\"s\":1},{\"n\":\"f10\",\"i\":10,\"k\":11,\"s\":1,\"m\":110},{\"n\":\"f6\",\"i\":6,\"k\":11,\"s\":1,\"m\":111},{\"n\":\"f15\",\"i\":15,\"k\":9,\"s\":6},{\"n\":\"f9\",\"i\":9,\"k\":18},{\"n\":\"f259\",\"i\":259,\"k\":4,\"s\":6},{\"n\":\"f28\",\"i\":28,\"k\":11,\"s\":1,\"m\":112}]},{\"name\":\"S14M3\",\"u\":1,\"f\":[{\"n\":\"f1004\",\"i\":1004,\"k\":17,\"s\":4,\"p\":true},{\"n\":\"f846\",\"i\":846,\"k\":9,\"s\":1},{\"n\":\"f19\",\"i\":19,\"k\":7,\"s\":4},{\"n\":\"f8\",\"i\":8,\"k\":13,\"s\":1},{\"n\":\"f642\",\"i\":642,\"k\":7,\"s\":1},{\"n\":\"f58\",\"i\":58,\"k\":17,\"s\":5,\"y\":5},{\"n\":\"f9\",\"i\":9,\"k\":13},{\"n\":\"f30\",\"i\":30,\"k\":4}]},{\"name\":\"S14M4\",\"u\":1,\"f\":[{\"n\":\"f14\",\"i\":14,\"k\":13,\"s\":3},{\"n\":\"f2\",\"i\":2,\"k\":7,\"s\":5,\"y\":17},{\"n\":\"f3\",\"i\":3,\"k\":15,\"s\":4,\"p\":true},{\"n\":\"f15\",\"i\":15,\"k\":18},{\"n\":\"f996\",\"i\":996,\"k\":17,\"s\":3},{\"n\":\"f887\",\"i\":887,\"k\":3,\"s\":1},{\"n\":\"f11\",\"i\":11,\"k\":14},{\"n\":\"f18\",\"i\":18,\"k\":12,\"s\":3}]},{\"name\":\"S14M5\",\"u\":1,\"f\":[{\"n\":\"f262144\",\"i\":262144,\"k\":18,\"s\":4,\"p\":true},{\"n\":\"f2\",\"i\":2,\"k\":8}]},{\"name\":\"S14M6\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f648\",\"i\":648,\"k\":11,\"s\":1,\"m\":114},{\"n\":\"f5\",\"i\":5,\"k\":11,\"s\":6,\"m\":111},{\"n\":\"f11\",\"i\":11,\"k\":18,\"s\":5,\"y\":15},{\"n\":\"f208\",\"i\":208,\"k\":14},{\"n\":\"f19\",\"i\":19,\"k\":11,\"s\":5,\"y\":16,\"m\":110},{\"n\":\"f14\",\"i\":14,\"k\":11,\"s\":4,\"m\":115},{\"n\":\"f15\",\"i\":15,\"k\":18,\"s\":6}]},{\"name\":\"S14M7\",\"u\":1,\"f\":[{\"n\":\"f2\",\"i\":2,\"k\":18,\"s\":1},{\"n\":\"f18999\",\"i\":18999,\"k\":6,\"s\":1},{\"n\":\"f11\",\"i\":11,\"k\":16,\"s\":4,\"p\":true},{\"n\":\"f340\",\"i\":340,\"k\":8,\"s\":1},{\"n\":\"f12\",\"i\":12,\"k\":13,\"s\":4,\"p\":true},{\"n\":\"f2048\",\"i\":2048,\"k\":13,\"s\":1}]},{\"name\":\"S14M8\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f2047\",\"i\":2047,\"k\":6,\"s\":6},{\"n\":\"f5\",\"i\":5,\"k\":6,\"s\":4,\"p\":true},{\"n\":\"f4\",\"i\":4,\"k\":8,\"s\":1},{\"n\":\"f1000\",\"i\":1000,\"k\":13},{\"n\":\"f3\",\"i\":3,\"k\":13},{\"n\":\"f1002\",\"i\":1002,\"k\":5,\"s\":1}]},{\"name\":\"S14M9\",\"u\":1,\"f\":[{\"n\":\"f6\",\"i\":6,\"k\":8},{\"n\":\"f2047\",\"i\":2047,\"k\":1,\"s\":5,\"y\":17},{\"n\":\"f13\",\"i\":13,\"k\":13},{\"n\":\"f21\",\"i\":21,\"k\":9},{\"n\":\"f868\",\"i\":868,\"k\":18,\"s\":4,\"p\":true}]},{\"name\":\"S15M2\",\"u\":1,\"f\":[{\"n\":\"f2\",\"i\":2,\"k\":16,\"s\":5,\"y\":7},{\"n\":\"f904\",\"i\":904,\"k\":17}]},{\"name\":\"S17M2\",\"u\":1,\"f\":[{\"n\":\"f2\",\"i\":2,\"k\":2},{\"n\":\"f9\",\"i\":9,\"k\":12,\"s\":1},{\"n\":\"f141\",\"i\":141,\"k\":2,\"s\":1},{\"n\":\"f6\",\"i\":6,\"k\":4,\"s\":5,\"y\":15},{\"n\":\"f5\",\"i\":5,\"k\":15,\"s\":3}]},{\"name\":\"S17M3\",\"u\":1,\"f\":null},{\"name\":\"S17M4\",\"u\":1,\"f\":[{\"n\":\"f1002\",\"i\":1002,\"k\":9},{\"n\":\"f860\",\"i\":860,\"k\":2,\"s\":5,\"y\":13},{\"n\":\"f10\",\"i\":10,\"k\":11,\"s\":5,\"y\":17,\"m\":118}]},{\"name\":\"S18M2\",\"u\":1,\"f\":[{\"n\":\"f11\",\"i\":11,\"k\":6,\"s\":4},{\"n\":\"f6\",\"i\":6,\"k\":7},{\"n\":\"f1\",\"i\":1,\"k\":16},{\"n\":\"f33554431\",\"i\":33554431,\"k\":12}]},{\"name\":\"S19M2\",\"u\":1,\"f\":[{\"n\":\"f517791607\",\"i\":517791607,\"k\":11,\"s\":5,\"y\":6,\"m\":123},{\"n\":\"f8\",\"i\":8,\"k\":11,\"s\":5,\"y\":7,\"m\":124}]},{\"name\":\"S19M3\",\"u\":1,\"f\":[{\"n\":\"f292\",\"i\":292,\"k\":4,\"s\":3}]},{\"name\":\"S19M4\",\"u\":1,\"f\":null},{\"name\":\"S21M2\",\"u\":1,\"f\":[{\"n\":\"f188\",\"i\":188,\"k\":11,\"s\":4,\"m\":126},{\"n\":\"f6\",\"i\":6,\"k\":9,\"s\":1}]},{\"name\":\"S21M3\",\"u\":1,\"f\":[{\"n\":\"f12\",\"i\":12,\"k\":16,\"s\":1},{\"n\":\"f10\",\"i\":10,\"k\":5,\"s\":1},{\"n\":\"f13\",\"i\":13,\"k\":14,\"s\":4},{\"n\":\"f14\",\"i\":14,\"k\":6,\"s\":4},{\"n\":\"f5\",\"i\":5,\"k\":8,\"s\":5,\"y\":5}]},{\"name\":\"S21M4\",\"u\":1,\"f\":[{\"n\":\"f21\",\"i\":21,\"k\":9,\"s\":1},{\"n\":\"f1000\",\"i\":1000,\"k\":11,\"s\":4,\"m\":126},{\"n\":\"f367\",\"i\":367,\"k\":18},{\"n\":\"f262143\",\"i\":262143,\"k\":13},{\"n\":\"f13\",\"i\":13,\"k\":11,\"s\":4,\"m\":126},{\"n\":\"f1\",\"i\":1,\"k\":1,\"s\":4,\"p\":true},{\"n\":\"f27\",\"i\":27,\"k\":11,\"s\":4,\"m\":128},{\"n\":\"f1003\",\"i\":1003,\"k\":6,\"s\":3},{\"n\":\"f1005\",\"i\":1005,\"k\":11,\"s\":1,\"m\":129}]},{\"name\":\"S21M5\",\"u\":1,\"f\":[{\"n\":\"f2048\",\"i\":2048,\"k\":9,\"s\":4},{\"n\":\"f865\",\"i\":865,\"k\":18,\"s\":5,\"y\":18},{\"n\":\"f4\",\"i\":4,\"k\":9,\"s\":1},{\"n\":\"f262144\",\"i\":262144,\"k\":12,\"s\":1},{\"n\":\"f15\",\"i\":15,\"k\":15,\"s\":3},{\"n\":\"f675\",\"i\":675,\"k\":5,\"s\":4},{\"n\":\"f142\",\"i\":142,\"k\":5},{\"n\":\"f149\",\"i\":149,\"k\":3}]},{\"name\":\"S21M6\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f354\",\"i\":354,\"k\":7,\"s\":6},{\"n\":\"f10\",\"i\":10,\"k\":6,\"s\":1},{\"n\":\"f20000\",\"i\":20000,\"k\":18,\"s\":5,\"y\":3},{\"n\":\"f243096375\",\"i\":243096375,\"k\":1,\"s\":4,\"p\":true},{\"n\":\"f33\",\"i\":33,\"k\":18,\"s\":6},{\"n\":\"f33554432\",\"i\":33554432,\"k\":3,\"s\":5,\"y\":3},{\"n\":\"f2\",\"i\":2,\"k\":1,\"s\":6},{\"n\":\"f536870911\",\"i\":536870911,\"k\":5},{\"n\":\"f11\",\"i\":11,\"k\":3,\"s\":4}]},{\"name\":\"S21M7\",\"u\":1,\"f\":[{\"n\":\"f3\",\"i\":3,\"k\":8,\"s\":5,\"y\":9},{\"n\":\"f4\",\"i\":4,\"k\":7,\"s\":5,\"y\":16},{\"n\":\"f34\",\"i\":34,\"k\":11,\"s\":5,\"y\":7,\"m\":131},{\"n\":\"f5\",\"i\":5,\"k\":11,\"s\":1,\"m\":132},{\"n\":\"f1004\",\"i\":1004,\"k\":16,\"s\":4,\"p\":true},{\"n\":\"f341\",\"i\":341,\"k\":15},{\"n\":\"f9\",\"i\":9,\"k\":8,\"s\":4,\"p\":true},{\"n\":\"f6\",\"i\":6,\"k\":11,\"s\":1,\"m\":133},{\"n\":\"f18999\",\"i\":18999,\"k\":11,\"s\":1,\"m\":134}]},{\"name\":\"S21M8\",\"u\":1,\"f\":[{\"n\":\"f10\",\"i\":10,\"k\":9,\"s\":4}]},{\"name\":\"S21M9\",\"u\":1,\"f\":[{\"n\":\"f3\",\"i\":3,\"k\":8,\"s\":4,\"p\":true},{\"n\":\"f231191318\",\"i\":231191318,\"k\":18,\"s\":4,\"p\":true}]},{\"name\":\"S21M10\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f6\",\"i\":6,\"k\":6,\"s\":1},{\"n\":\"f999\",\"i\":999,\"k\":5},{\"n\":\"f9\",\"i\":9,\"k\":1,\"s\":6},{\"n\":\"f400\",\"i\":400,\"k\":16,\"s\":5,\"y\":3}]},{\"name\":\"S21M11\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f15\",\"i\":15,\"k\":12,\"s\":6},{\"n\":\"f303\",\"i\":303,\"k\":7},{\"n\":\"f1\",\"i\":1,\"k\":17,\"s\":4,\"p\":true},{\"n\":\"f27\",\"i\":27,\"k\":2,\"s\":5,\"y\":8},{\"n\":\"f16\",\"i\":16,\"k\":15,\"s\":3},{\"n\":\"f13\",\"i\":13,\"k\":12},{\"n\":\"f2\",\"i\":2,\"k\":4,\"s\":6},{\"n\":\"f874\",\"i\":874,\"k\":16,\"s\":4,\"p\":true},{\"n\":\"f4\",\"i\":4,\"k\":9,\"s\":5,\"y\":13}]},{\"name\":\"S22M2\",\"u\":1,\"f\":[{\"n\":\"f365394437\",\"i\":365394437,\"k\":11,\"s\":1,\"m\":136}]},{\"name\":\"S22M3\",\"u\":1,\"f\":[{\"n\":\"f6\",\"i\":6,\"k\":8,\"s\":1},{\"n\":\"f457905322\",\"i\":457905322,\"k\":6,\"s\":1},{\"n\":\"f910\",\"i\":910,\"k\":6,\"s\":5,\"y\":8},{\"n\":\"f1005\",\"i\":1005,\"k\":14,\"s\":5,\"y\":7},{\"n\":\"f262144\",\"i\":262144,\"k\":4},{\"n\":\"f3\",\"i\":3,\"k\":14,\"s\":5,\"y\":15}]},{\"name\":\"S24M2\",\"u\":1,\"f\":[{\"n\":\"f7\",\"i\":7,\"k\":11,\"s\":4,\"m\":138},{\"n\":\"f481\",\"i\":481,\"k\":14,\"s\":1},{\"n\":\"f5\",\"i\":5,\"k\":6,\"s\":1},{\"n\":\"f4\",\"i\":4,\"k\":18,\"s\":5,\"y\":17},{\"n\":\"f20000\",\"i\":20000,\"k\":11,\"s\":1,\"m\":139},{\"n\":\"f2047\",\"i\":2047,\"k\":4,\"s\":5,\"y\":13}]},{\"name\":\"S24M3\",\"u\":1,\"f\":[{\"n\":\"f1013\",\"i\":1013,\"k\":8,\"s\":5,\"y\":3}]},{\"name\":\"S24M4\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f1005\",\"i\":1005,\"k\":13,\"s\":6},{\"n\":\"f877\",\"i\":877,\"k\":17},{\"n\":\"f628\",\"i\":628,\"k\":9,\"s\":1},{\"n\":\"f388\",\"i\":388,\"k\":7}]},{\"name\":\"S24M5\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f4\",\"i\":4,\"k\":7,\"s\":4,\"p\":true},{\"n\":\"f8\",\"i\":8,\"k\":6,\"s\":4,\"p\":true},{\"n\":\"f998\",\"i\":998,\"k\":9,\"s\":4},{\"n\":\"f1002\",\"i\":1002,\"k\":3,\"s\":4},{\"n\":\"f1003\",\"i\":1003,\"k\":12,\"s\":6}]},{\"name\":\"S24M6\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":11,\"s\":5,\"y\":16,\"m\":142},{\"n\":\"f15\",\"i\":15,\"k\":11,\"s\":1,\"m\":143},{\"n\":\"f14\",\"i\":14,\"k\":12,\"s\":6},{\"n\":\"f4\",\"i\":4,\"k\":18,\"s\":6}]},{\"name\":\"S24M7\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f12\",\"i\":12,\"k\":5,\"s\":6},{\"n\":\"f13\",\"i\":13,\"k\":8,\"s\":6},{\"n\":\"f511\",\"i\":511,\"k\":6,\"s\":4},{\"n\":\"f6\",\"i\":6,\"k\":13,\"s\":4},{\"n\":\"f536870910\",\"i\":536870910,\"k\":15,\"s\":1},{\"n\":\"f262144\",\"i\":262144,\"k\":18,\"s\":1},{\"n\":\"f9\",\"i\":9,\"k\":17,\"s\":4}]},{\"name\":\"S24M8\",\"u\":1,\"f\":[{\"n\":\"f31\",\"i\":31,\"k\":15,\"s\":1}]},{\"name\":\"S24M9\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f7\",\"i\":7,\"k\":3,\"s\":5,\"y\":5},{\"n\":\"f9\",\"i\":9,\"k\":15,\"s\":1},{\"n\":\"f536870911\",\"i\":536870911,\"k\":7},{\"n\":\"f26\",\"i\":26,\"k\":11,\"s\":6,\"m\":145},{\"n\":\"f10\",\"i\":10,\"k\":12,\"s\":6},{\"n\":\"f11\",\"i\":11,\"k\":5,\"s\":3},{\"n\":\"f1006\",\"i\":1006,\"k\":17,\"s\":4,\"p\":true},{\"n\":\"f25\",\"i\":25,\"k\":6}]},{\"name\":\"S24M10\",\"o\":2,\"u\":1,\"f\":[{\"n\":\"f15\",\"i\":15,\"k\":9,\"s\":1},{\"n\":\"f40\",\"i\":40,\"k\":9,\"s\":6},{\"n\":\"f3\",\"i\":3,\"k\":1,\"s\":6,\"o\":1},{\"n\":\"f6\",\"i\":6,\"k\":12,\"s\":5,\"y\":6},{\"n\":\"f11\",\"i\":11,\"k\":15,\"s\":4,\"p\":true},{\"n\":\"f4\",\"i\":4,\"k\":18,\"s\":4},{\"n\":\"f24\",\"i\":24,\"k\":18,\"s\":1},{\"n\":\"f1\",\"i\":1,\"k\":12}]},{\"name\":\"S31M2\",\"u\":1,\"f\":[{\"n\":\"f14\",\"i\":14,\"k\":8,\"s\":4},{\"n\":\"f15\",\"i\":15,\"k\":11,\"s\":1,\"m\":147},{\"n\":\"f12\",\"i\":12,\"k\":5,\"s\":5,\"y\":16},{\"n\":\"f4\",\"i\":4,\"k\":13}]},{\"name\":\"S31M3\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f840\",\"i\":840,\"k\":8,\"s\":6},{\"n\":\"f15\",\"i\":15,\"k\":8,\"s\":4}]},{\"name\":\"S31M4\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f846\",\"i\":846,\"k\":3,\"s\":6},{\"n\":\"f28\",\"i\":28,\"k\":1},{\"n\":\"f535736848\",\"i\":535736848,\"k\":11,\"s\":1,\"m\":149},{\"n\":\"f4\",\"i\":4,\"k\":7,\"s\":1}]},{\"name\":\"S31M5\",\"u\":1,\"f\":[{\"n\":\"f262144\",\"i\":262144,\"k\":1,\"s\":4},{\"n\":\"f234\",\"i\":234,\"k\":17,\"s\":4},{\"n\":\"f160649364\",\"i\":160649364,\"k\":14,\"s\":4,\"p\":true},{\"n\":\"f19\",\"i\":19,\"k\":12}]},{\"name\":\"S32M2\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f2047\",\"i\":2047,\"k\":15,\"s\":6},{\"n\":\"f6\",\"i\":6,\"k\":11,\"s\":4,\"m\":151},{\"n\":\"f9\",\"i\":9,\"k\":12,\"s\":4},{\"n\":\"f5\",\"i\":5,\"k\":14,\"s\":5,\"y\":7},{\"n\":\"f13\",\"i\":13,\"k\":17,\"s\":4}]},{\"name\":\"S32M3\",\"u\":1,\"f\":[{\"n\":\"f18\",\"i\":18,\"k\":6,\"s\":5,\"y\":7},{\"n\":\"f6\",\"i\":6,\"k\":4,\"s\":5,\"y\":7},{\"n\":\"f1\",\"i\":1,\"k\":13,\"s\":4,\"p\":true},{\"n\":\"f1001\",\"i\":1001,\"k\":16,\"s\":4},{\"n\":\"f21\",\"i\":21,\"k\":17,\"s\":4},{\"n\":\"f15\",\"i\":15,\"k\":15,\"s\":4,\"p\":true},{\"n\":\"f89\",\"i\":89,\"k\":16,\"s\":1},{\"n\":\"f13\",\"i\":13,\"k\":8,\"s\":3},{\"n\":\"f14\",\"i\":14,\"k\":17,\"s\":4,\"p\":true},{\"n\":\"f8\",\"i\":8,\"k\":6,\"s\":4,\"p\":true}]},{\"name\":\"S33M2\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f999\",\"i\":999,\"k\":13},{\"n\":\"f262144\",\"i\":262144,\"k\":4,\"s\":4,\"p\":true},{\"n\":\"f35\",\"i\":35,\"k\":4},{\"n\":\"f9\",\"i\":9,\"k\":2,\"s\":6},{\"n\":\"f13\",\"i\":13,\"k\":2,\"s\":4},{\"n\":\"f29\",\"i\":29,\"k\":11,\"s\":1,\"m\":153},{\"n\":\"f11\",\"i\":11,\"k\":18,\"s\":5,\"y\":9},{\"n\":\"f33554432\",\"i\":33554432,\"k\":11,\"s\":6,\"m\":154},{\"n\":\"f1004\",\"i\":1004,\"k\":11,\"s\":1,\"m\":155},{\"n\":\"f3\",\"i\":3,\"k\":2}]},{\"name\":\"S33M3\",\"u\":1,\"f\":[{\"n\":\"f6\",\"i\":6,\"k\":17,\"s\":5,\"y\":16},{\"n\":\"f15\",\"i\":15,\"k\":12,\"s\":4}]},{\"name\":\"S33M4\",\"u\":1,\"f\":[{\"n\":\"f15\",\"i\":15,\"k\":1},{\"n\":\"f13\",\"i\":13,\"k\":12,\"s\":4},{\"n\":\"f2048\",\"i\":2048,\"k\":6,\"s\":1},{\"n\":\"f996\",\"i\":996,\"k\":2},{\"n\":\"f995\",\"i\":995,\"k\":13,\"s\":4,\"p\":true},{\"n\":\"f14\",\"i\":14,\"k\":7},{\"n\":\"f16\",\"i\":16,\"k\":7,\"s\":4},{\"n\":\"f9\",\"i\":9,\"k\":14,\"s\":1},{\"n\":\"f17\",\"i\":17,\"k\":8,\"s\":4}]},{\"name\":\"S33M5\",\"u\":1,\"f\":[{\"n\":\"f536870911\",\"i\":536870911,\"k\":9,\"s\":5,\"y\":9},{\"n\":\"f5\",\"i\":5,\"k\":3,\"s\":1},{\"n\":\"f12\",\"i\":12,\"k\":7,\"s\":5,\"y\":5},{\"n\":\"f10\",\"i\":10,\"k\":17,\"s\":1},{\"n\":\"f15\",\"i\":15,\"k\":7,\"s\":5,\"y\":7}]},{\"name\":\"S34M2\",\"u\":1,\"f\":[{\"n\":\"f1002\",\"i\":1002,\"k\":14},{\"n\":\"f2047\",\"i\":2047,\"k\":6}]},{\"name\":\"S34M3\",\"o\":2,\"u\":1,\"f\":[{\"n\":\"f4\",\"i\":4,\"k\":17,\"s\":6},{\"n\":\"f3\",\"i\":3,\"k\":8,\"s\":6,\"o\":1},{\"n\":\"f6\",\"i\":6,\"k\":15,\"s\":5,\"y\":8},{\"n\":\"f26\",\"i\":26,\"k\":11,\"s\":1,\"m\":158},{\"n\":\"f7\",\"i\":7,\"k\":11,\"s\":6,\"m\":159},{\"n\":\"f54\",\"i\":54,\"k\":9,\"s\":4},{\"n\":\"f9\",\"i\":9,\"k\":13},{\"n\":\"f996\",\"i\":996,\"k\":9,\"s\":4},{\"n\":\"f262144\",\"i\":262144,\"k\":2},{\"n\":\"f1004\",\"i\":1004,\"k\":14,\"s\":5,\"y\":7}]},{\"name\":\"S34M4\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f33554432\",\"i\":33554432,\"k\":18},{\"n\":\"f795\",\"i\":795,\"k\":2,\"s\":1},{\"n\":\"f1\",\"i\":1,\"k\":7,\"s\":1},{\"n\":\"f536870910\",\"i\":536870910,\"k\":4,\"s\":4},{\"n\":\"f10\",\"i\":10,\"k\":14,\"s\":6},{\"n\":\"f1003\",\"i\":1003,\"k\":1,\"s\":6},{\"n\":\"f7\",\"i\":7,\"k\":4,\"s\":6},{\"n\":\"f14\",\"i\":14,\"k\":14,\"s\":1},{\"n\":\"f2\",\"i\":2,\"k\":17,\"s\":6},{\"n\":\"f334\",\"i\":334,\"k\":6}]},{\"name\":\"S34M5\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":9,\"s\":4},{\"n\":\"f7\",\"i\":7,\"k\":13,\"s\":6}]},{\"name\":\"S35M2\",\"o\":2,\"u\":1,\"f\":[{\"n\":\"f262144\",\"i\":262144,\"k\":18,\"s\":5,\"y\":15},{\"n\":\"f33554432\",\"i\":33554432,\"k\":11,\"s\":5,\"y\":6,\"m\":161},{\"n\":\"f12\",\"i\":12,\"k\":6,\"s\":4},{\"n\":\"f815\",\"i\":815,\"k\":11,\"s\":6,\"m\":162},{\"n\":\"f14\",\"i\":14,\"k\":14,\"s\":4},{\"n\":\"f17\",\"i\":17,\"k\":1,\"s\":6,\"o\":1},{\"n\":\"f15\",\"i\":15,\"k\":5,\"s\":5,\"y\":4}]},{\"name\":\"S35M3\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f8\",\"i\":8,\"k\":6,\"s\":6},{\"n\":\"f7\",\"i\":7,\"k\":5},{\"n\":\"f16\",\"i\":16,\"k\":18,\"s\":6},{\"n\":\"f50\",\"i\":50,\"k\":6,\"s\":6},{\"n\":\"f9\",\"i\":9,\"k\":12,\"s\":6},{\"n\":\"f10\",\"i\":10,\"k\":14},{\"n\":\"f262143\",\"i\":262143,\"k\":3}]},{\"name\":\"S35M4\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f13\",\"i\":13,\"k\":8},{\"n\":\"f208\",\"i\":208,\"k\":7},{\"n\":\"f374\",\"i\":374,\"k\":7,\"s\":5,\"y\":9},{\"n\":\"f570\",\"i\":570,\"k\":8,\"s\":4},{\"n\":\"f14\",\"i\":14,\"k\":1,\"s\":5,\"y\":17},{\"n\":\"f561\",\"i\":561,\"k\":1,\"s\":6}]},{\"name\":\"S36M2\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f4\",\"i\":4,\"k\":4,\"s\":1},{\"n\":\"f277627129\",\"i\":277627129,\"k\":8,\"s\":4,\"p\":true},{\"n\":\"f262144\",\"i\":262144,\"k\":11,\"s\":3,\"m\":164},{\"n\":\"f5\",\"i\":5,\"k\":14,\"s\":1},{\"n\":\"f15\",\"i\":15,\"k\":11,\"s\":1,\"m\":165},{\"n\":\"f9\",\"i\":9,\"k\":16,\"s\":6},{\"n\":\"f471002382\",\"i\":471002382,\"k\":11,\"s\":1,\"m\":166}]},{\"name\":\"S36M3\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f217\",\"i\":217,\"k\":17,\"s\":1},{\"n\":\"f2\",\"i\":2,\"k\":3,\"s\":5,\"y\":15},{\"n\":\"f3\",\"i\":3,\"k\":14,\"s\":1},{\"n\":\"f997\",\"i\":997,\"k\":16,\"s\":5,\"y\":15},{\"n\":\"f11\",\"i\":11,\"k\":12,\"s\":5,\"y\":3},{\"n\":\"f37\",\"i\":37,\"k\":14,\"s\":6},{\"n\":\"f12\",\"i\":12,\"k\":1},{\"n\":\"f7\",\"i\":7,\"k\":15,\"s\":4,\"p\":true},{\"n\":\"f35\",\"i\":35,\"k\":7}]},{\"name\":\"S36M4\",\"u\":1,\"f\":[{\"n\":\"f998\",\"i\":998,\"k\":7,\"s\":5,\"y\":6},{\"n\":\"f1003\",\"i\":1003,\"k\":6,\"s\":1},{\"n\":\"f6\",\"i\":6,\"k\":12,\"s\":4},{\"n\":\"f39\",\"i\":39,\"k\":8,\"s\":5,\"y\":3}]},{\"name\":\"S36M5\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f33\",\"i\":33,\"k\":12,\"s\":6},{\"n\":\"f7\",\"i\":7,\"k\":17},{\"n\":\"f784\",\"i\":784,\"k\":12,\"s\":5,\"y\":8},{\"n\":\"f536870910\",\"i\":536870910,\"k\":1,\"s\":1},{\"n\":\"f999\",\"i\":999,\"k\":16,\"s\":1},{\"n\":\"f16\",\"i\":16,\"k\":6,\"s\":1},{\"n\":\"f1001\",\"i\":1001,\"k\":2,\"s\":3},{\"n\":\"f30\",\"i\":30,\"k\":5}]},{\"name\":\"S36M6\",\"u\":1,\"f\":[{\"n\":\"f12\",\"i\":12,\"k\":1,\"s\":4,\"p\":true}]},{\"name\":\"S36M7\",\"u\":1,\"f\":[{\"n\":\"f13\",\"i\":13,\"k\":16,\"s\":1},{\"n\":\"f14\",\"i\":14,\"k\":12,\"s\":4},{\"n\":\"f15\",\"i\":15,\"k\":1},{\"n\":\"f9\",\"i\":9,\"k\":11,\"s\":4,\"m\":167},{\"n\":\"f11\",\"i\":11,\"k\":11,\"s\":1,\"m\":165}]},{\"name\":\"S36M8\",\"u\":1,\"f\":[{\"n\":\"f644\",\"i\":644,\"k\":11,\"s\":5,\"y\":17,\"m\":170},{\"n\":\"f791\",\"i\":791,\"k\":7,\"s\":1}]},{\"name\":\"S36M9\",\"u\":1,\"f\":[{\"n\":\"f999\",\"i\":999,\"k\":4,\"s\":4}]},{\"name\":\"S36M10\",\"u\":1,\"f\":[{\"n\":\"f285\",\"i\":285,\"k\":11,\"s\":4,\"m\":172}]},{\"name\":\"S36M11\",\"u\":1,\"f\":[{\"n\":\"f2047\",\"i\":2047,\"k\":7},{\"n\":\"f3\",\"i\":3,\"k\":9,\"s\":4},{\"n\":\"f477\",\"i\":477,\"k\":15,\"s\":5,\"y\":3},{\"n\":\"f753\",\"i\":753,\"k\":5,\"s\":4}]},{\"name\":\"S37M2\",\"o\":2,\"u\":1,\"f\":[{\"n\":\"f14\",\"i\":14,\"k\":16,\"s\":4},{\"n\":\"f1\",\"i\":1,\"k\":4,\"s\":6},{\"n\":\"f262144\",\"i\":262144,\"k\":6,\"s\":6,\"o\":1},{\"n\":\"f15\",\"i\":15,\"k\":11,\"s\":3,\"m\":174}]},{\"name\":\"S37M3\",\"o\":2,\"u\":1,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":17,\"s\":5,\"y\":5},{\"n\":\"f9\",\"i\":9,\"k\":18,\"s\":6},{\"n\":\"f859\",\"i\":859,\"k\":12},{\"n\":\"f433580546\",\"i\":433580546,\"k\":5,\"s\":5,\"y\":16},{\"n\":\"f536870910\",\"i\":536870910,\"k\":4,\"s\":6,\"o\":1},{\"n\":\"f995\",\"i\":995,\"k\":17,\"s\":4,\"p\":true},{\"n\":\"f381643977\",\"i\":381643977,\"k\":1}]},{\"name\":\"S37M4\",\"o\":2,\"u\":1,\"f\":[{\"n\":\"f823\",\"i\":823,\"k\":12,\"s\":1},{\"n\":\"f7\",\"i\":7,\"k\":11,\"s\":6,\"m\":176},{\"n\":\"f2\",\"i\":2,\"k\":11,\"s\":1,\"m\":174},{\"n\":\"f15\",\"i\":15,\"k\":11,\"s\":6,\"m\":174,\"o\":1},{\"n\":\"f18999\",\"i\":18999,\"k\":4},{\"n\":\"f40\",\"i\":40,\"k\":18,\"s\":5,\"y\":5},{\"n\":\"f20000\",\"i\":20000,\"k\":8,\"s\":1},{\"n\":\"f3\",\"i\":3,\"k\":11,\"s\":1,\"m\":177},{\"n\":\"f11\",\"i\":11,\"k\":2,\"s\":1},{\"n\":\"f178568561\",\"i\":178568561,\"k\":12}]},{\"name\":\"S37M5\",\"u\":1,\"f\":[{\"n\":\"f1003\",\"i\":1003,\"k\":18,\"s\":1}]},{\"name\":\"S37M6\",\"u\":1,\"f\":[{\"n\":\"f7\",\"i\":7,\"k\":14,\"s\":3}]},{\"name\":\"S38M2\",\"o\":2,\"u\":1,\"f\":[{\"n\":\"f997\",\"i\":997,\"k\":11,\"s\":6,\"m\":179},{\"n\":\"f465\",\"i\":465,\"k\":3,\"s\":4,\"p\":true},{\"n\":\"f4\",\"i\":4,\"k\":3,\"s\":6,\"o\":1},{\"n\":\"f6\",\"i\":6,\"k\":16,\"s\":4,\"p\":true}]},{\"name\":\"S38M3\",\"u\":1,\"f\":[{\"n\":\"f6\",\"i\":6,\"k\":14}]},{\"name\":\"S39M2\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f8\",\"i\":8,\"k\":16,\"s\":6},{\"n\":\"f997\",\"i\":997,\"k\":12,\"s\":1}]},{\"name\":\"S39M3\",\"u\":1,\"f\":[{\"n\":\"f13\",\"i\":13,\"k\":18,\"s\":1},{\"n\":\"f16\",\"i\":16,\"k\":9,\"s\":1},{\"n\":\"f12\",\"i\":12,\"k\":8,\"s\":5,\"y\":7},{\"n\":\"f536870911\",\"i\":536870911,\"k\":6,\"s\":5,\"y\":9},{\"n\":\"f14\",\"i\":14,\"k\":3},{\"n\":\"f7\",\"i\":7,\"k\":16,\"s\":5,\"y\":8},{\"n\":\"f10\",\"i\":10,\"k\":6}]},{\"name\":\"S39M4\",\"u\":1,\"f\":[{\"n\":\"f7\",\"i\":7,\"k\":9,\"s\":4},{\"n\":\"f14\",\"i\":14,\"k\":18,\"s\":4},{\"n\":\"f20000\",\"i\":20000,\"k\":1,\"s\":5,\"y\":13},{\"n\":\"f26\",\"i\":26,\"k\":4,\"s\":5,\"y\":17},{\"n\":\"f12\",\"i\":12,\"k\":11,\"s\":1,\"m\":183},{\"n\":\"f3\",\"i\":3,\"k\":4,\"s\":1},{\"n\":\"f200408845\",\"i\":200408845,\"k\":5,\"s\":5,\"y\":3},{\"n\":\"f4\",\"i\":4,\"k\":7,\"s\":1},{\"n\":\"f428\",\"i\":428,\"k\":18,\"s\":5,\"y\":6},{\"n\":\"f536870910\",\"i\":536870910,\"k\":11,\"s\":1,\"m\":183}]},{\"name\":\"S39M5\",\"u\":1,\"f\":[{\"n\":\"f4\",\"i\":4,\"k\":9},{\"n\":\"f80\",\"i\":80,\"k\":15,\"s\":1},{\"n\":\"f13\",\"i\":13,\"k\":15,\"s\":1},{\"n\":\"f38\",\"i\":38,\"k\":5,\"s\":4},{\"n\":\"f18999\",\"i\":18999,\"k\":16,\"s\":5,\"y\":13},{\"n\":\"f9\",\"i\":9,\"k\":8,\"s\":4},{\"n\":\"f10\",\"i\":10,\"k\":12,\"s\":1}]},{\"name\":\"S39M6\",\"u\":1,\"f\":[{\"n\":\"f536870911\",\"i\":536870911,\"k\":18,\"s\":4}]},{\"name\":\"S41M2\",\"u\":1,\"f\":[{\"n\":\"f4\",\"i\":4,\"k\":11,\"s\":1,\"m\":186},{\"n\":\"f13\",\"i\":13,\"k\":2,\"s\":4},{\"n\":\"f179486644\",\"i\":179486644,\"k\":1}]},{\"name\":\"S41M3\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f3\",\"i\":3,\"k\":7,\"s\":6},{\"n\":\"f626\",\"i\":626,\"k\":6,\"s\":1},{\"n\":\"f26\",\"i\":26,\"k\":17,\"s\":4},{\"n\":\"f4\",\"i\":4,\"k\":16,\"s\":1}]},{\"name\":\"S43M2\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f1004\",\"i\":1004,\"k\":11,\"s\":5,\"y\":4,\"m\":188},{\"n\":\"f996\",\"i\":996,\"k\":3,\"s\":4},{\"n\":\"f5\",\"i\":5,\"k\":3},{\"n\":\"f12\",\"i\":12,\"k\":17},{\"n\":\"f8\",\"i\":8,\"k\":9,\"s\":3},{\"n\":\"f2\",\"i\":2,\"k\":7,\"s\":5,\"y\":15},{\"n\":\"f6\",\"i\":6,\"k\":12,\"s\":5,\"y\":5},{\"n\":\"f223\",\"i\":223,\"k\":6,\"s\":4,\"p\":true},{\"n\":\"f7\",\"i\":7,\"k\":1,\"s\":6}]},{\"name\":\"S43M3\",\"u\":1,\"f\":[{\"n\":\"f3\",\"i\":3,\"k\":15},{\"n\":\"f396\",\"i\":396,\"k\":18,\"s\":5,\"y\":16},{\"n\":\"f7\",\"i\":7,\"k\":17,\"s\":1},{\"n\":\"f1\",\"i\":1,\"k\":9,\"s\":4},{\"n\":\"f12\",\"i\":12,\"k\":4,\"s\":4,\"p\":true}]},{\"name\":\"S44M2\",\"u\":1,\"f\":[{\"n\":\"f9\",\"i\":9,\"k\":17},{\"n\":\"f19\",\"i\":19,\"k\":17,\"s\":5,\"y\":8},{\"n\":\"f2\",\"i\":2,\"k\":6,\"s\":5,\"y\":18},{\"n\":\"f35\",\"i\":35,\"k\":9,\"s\":3}]},{\"name\":\"S44M3\",\"u\":1,\"f\":null},{\"name\":\"S45M2\",\"u\":1,\"f\":[{\"n\":\"f4\",\"i\":4,\"k\":17,\"s\":4},{\"n\":\"f33554432\",\"i\":33554432,\"k\":14,\"s\":1},{\"n\":\"f10\",\"i\":10,\"k\":5,\"s\":1},{\"n\":\"f8\",\"i\":8,\"k\":11,\"s\":1,\"m\":192},{\"n\":\"f33\",\"i\":33,\"k\":13,\"s\":4},{\"n\":\"f3\",\"i\":3,\"k\":12,\"s\":5,\"y\":8},{\"n\":\"f536870911\",\"i\":536870911,\"k\":6,\"s\":5,\"y\":15},{\"n\":\"f1006\",\"i\":1006,\"k\":14}]},{\"name\":\"S45M3\",\"u\":1,\"f\":[{\"n\":\"f11\",\"i\":11,\"k\":15,\"s\":4,\"p\":true},{\"n\":\"f2\",\"i\":2,\"k\":16},{\"n\":\"f15\",\"i\":15,\"k\":6,\"s\":4,\"p\":true},{\"n\":\"f9\",\"i\":9,\"k\":9},{\"n\":\"f36\",\"i\":36,\"k\":4,\"s\":4,\"p\":true},{\"n\":\"f1004\",\"i\":1004,\"k\":13,\"s\":4},{\"n\":\"f7\",\"i\":7,\"k\":5,\"s\":5,\"y\":17},{\"n\":\"f10\",\"i\":10,\"k\":1,\"s\":4,\"p\":true},{\"n\":\"f1000\",\"i\":1000,\"k\":7,\"s\":4,\"p\":true}]},{\"name\":\"S45M4\",\"u\":1,\"f\":[{\"n\":\"f262144\",\"i\":262144,\"k\":11,\"s\":4,\"m\":194},{\"n\":\"f33554431\",\"i\":33554431,\"k\":11,\"s\":4,\"m\":192},{\"n\":\"f338\",\"i\":338,\"k\":13}]},{\"name\":\"S45M5\",\"u\":1,\"f\":[{\"n\":\"f5\",\"i\":5,\"k\":18,\"s\":1}]},{\"name\":\"S46M2\",\"u\":1,\"f\":[{\"n\":\"f8948839\",\"i\":8948839,\"k\":11,\"s\":5,\"y\":9,\"m\":196},{\"n\":\"f11\",\"i\":11,\"k\":17,\"s\":5,\"y\":9},{\"n\":\"f6\",\"i\":6,\"k\":11,\"s\":5,\"y\":5,\"m\":197},{\"n\":\"f5\",\"i\":5,\"k\":5},{\"n\":\"f10\",\"i\":10,\"k\":5,\"s\":1},{\"n\":\"f15\",\"i\":15,\"k\":5},{\"n\":\"f996\",\"i\":996,\"k\":5,\"s\":5,\"y\":5},{\"n\":\"f474\",\"i\":474,\"k\":11,\"s\":1,\"m\":198}]},{\"name\":\"S46M3\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f2048\",\"i\":2048,\"k\":5,\"s\":4},{\"n\":\"f17083450\",\"i\":17083450,\"k\":5,\"s\":6},{\"n\":\"f13\",\"i\":13,\"k\":17,\"s\":5,\"y\":6},{\"n\":\"f2\",\"i\":2,\"k\":3,\"s\":1},{\"n\":\"f4\",\"i\":4,\"k\":15},{\"n\":\"f5\",\"i\":5,\"k\":16},{\"n\":\"f15\",\"i\":15,\"k\":1,\"s\":6}]},{\"name\":\"S46M4\",\"u\":1,\"f\":null},{\"name\":\"S46M5\",\"u\":1,\"f\":[{\"n\":\"f249548881\",\"i\":249548881,\"k\":8,\"s\":1},{\"n\":\"f1002\",\"i\":1002,\"k\":16,\"s\":4},{\"n\":\"f9\",\"i\":9,\"k\":8},{\"n\":\"f28\",\"i\":28,\"k\":3,\"s\":4,\"p\":true},{\"n\":\"f1\",\"i\":1,\"k\":12,\"s\":1},{\"n\":\"f13\",\"i\":13,\"k\":1,\"s\":4,\"p\":true},{\"n\":\"f262143\",\"i\":262143,\"k\":14,\"s\":5,\"y\":15},{\"n\":\"f33554432\",\"i\":33554432,\"k\":16}]},{\"name\":\"S47M2\",\"u\":1,\"f\":null},{\"name\":\"S47M3\",\"o\":2,\"u\":1,\"f\":[{\"n\":\"f11\",\"i\":11,\"k\":2,\"s\":5,\"y\":5},{\"n\":\"f18999\",\"i\":18999,\"k\":11,\"s\":6,\"m\":201},{\"n\":\"f998\",\"i\":998,\"k\":4,\"s\":6,\"o\":1},{\"n\":\"f999\",\"i\":999,\"k\":18,\"s\":6},{\"n\":\"f997\",\"i\":997,\"k\":1,\"s\":6},{\"n\":\"f1006\",\"i\":1006,\"k\":6,\"s\":4},{\"n\":\"f398\",\"i\":398,\"k\":13}]},{\"name\":\"S47M4\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f17\",\"i\":17,\"k\":5,\"s\":5,\"y\":7},{\"n\":\"f6\",\"i\":6,\"k\":16,\"s\":1},{\"n\":\"f7\",\"i\":7,\"k\":12,\"s\":5,\"y\":3},{\"n\":\"f40\",\"i\":40,\"k\":18,\"s\":6},{\"n\":\"f1\",\"i\":1,\"k\":13,\"s\":6},{\"n\":\"f12\",\"i\":12,\"k\":15,\"s\":5,\"y\":5},{\"n\":\"f18\",\"i\":18,\"k\":9,\"s\":1},{\"n\":\"f8\",\"i\":8,\"k\":18,\"s\":3}]},{\"name\":\"S47M5\",\"u\":1,\"f\":[{\"n\":\"f8\",\"i\":8,\"k\":7,\"s\":1},{\"n\":\"f13\",\"i\":13,\"k\":7,\"s\":4,\"p\":true},{\"n\":\"f536870911\",\"i\":536870911,\"k\":11,\"s\":5,\"y\":15,\"m\":203}]},{\"name\":\"S47M6\",\"o\":1,\"u\":1,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":16,\"s\":6},{\"n\":\"f2048\",\"i\":2048,\"k\":4,\"s\":1},{\"n\":\"f536870910\",\"i\":536870910,\"k\":6,\"s\":6}]},{\"name\":\"MutB\",\"u\":1,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":11,\"s\":1,\"m\":50},{\"n\":\"f2\",\"i\":2,\"k\":11,\"s\":5,\"y\":17,\"m\":50},{\"n\":\"f3\",\"i\":3,\"k\":1}]},{\"name\":\"Leaf\",\"u\":1,\"f\":[{\"n\":\"f1\",\"i\":1,\"k\":5},{\"n\":\"f2\",\"i\":2,\"k\":9,\"s\":4}]}]"

// Entry is a generated type with its oneof wrappers.
type Entry struct {
	Name     string
	T        reflect.Type
	Wrappers []any
}

var Entries = []Entry{
	{"S0M1", reflect.TypeFor[S0M1](), []any{(*S0M1_F11)(nil), (*S0M1_F28)(nil)}},
	{"S0M2", reflect.TypeFor[S0M2](), []any{(*S0M2_F4)(nil), (*S0M2_F14)(nil)}},
	{"S0M3", reflect.TypeFor[S0M3](), []any{}},
	{"S0M4", reflect.TypeFor[S0M4](), []any{(*S0M4_F20000)(nil)}},
	{"S0M5", reflect.TypeFor[S0M5](), []any{(*S0M5_F24)(nil), (*S0M5_F16)(nil), (*S0M5_F10)(nil)}},
	{"S0M6", reflect.TypeFor[S0M6](), []any{(*S0M6_F8)(nil)}},
	{"S0M7", reflect.TypeFor[S0M7](), []any{}},
	{"S1M1", reflect.TypeFor[S1M1](), []any{(*S1M1_F1001)(nil), (*S1M1_F13)(nil)}},
	{"S1M2", reflect.TypeFor[S1M2](), []any{}},
	{"S2M1", reflect.TypeFor[S2M1](), []any{(*S2M1_F12)(nil), (*S2M1_F13)(nil), (*S2M1_F14)(nil)}},
	{"S2M2", reflect.TypeFor[S2M2](), []any{}},
	{"S2M3", reflect.TypeFor[S2M3](), []any{}},
	{"S2M4", reflect.TypeFor[S2M4](), []any{(*S2M4_F18)(nil)}},
	{"S2M5", reflect.TypeFor[S2M5](), []any{}},
	{"S2M6", reflect.TypeFor[S2M6](), []any{}},
	{"S3M1", reflect.TypeFor[S3M1](), []any{}},
	{"S4M1", reflect.TypeFor[S4M1](), []any{(*S4M1_F262144)(nil), (*S4M1_F17)(nil), (*S4M1_F5)(nil)}},
	{"S4M2", reflect.TypeFor[S4M2](), []any{}},
	{"S4M3", reflect.TypeFor[S4M3](), []any{}},
	{"S4M4", reflect.TypeFor[S4M4](), []any{}},
	{"S5M1", reflect.TypeFor[S5M1](), []any{(*S5M1_F12)(nil), (*S5M1_F459918137)(nil)}},
	{"S5M2", reflect.TypeFor[S5M2](), []any{}},
	{"S5M3", reflect.TypeFor[S5M3](), []any{}},
	{"S5M4", reflect.TypeFor[S5M4](), []any{(*S5M4_F1003)(nil)}},
	{"S6M1", reflect.TypeFor[S6M1](), []any{}},
	{"S7M1", reflect.TypeFor[S7M1](), []any{}},
	{"S7M2", reflect.TypeFor[S7M2](), []any{}},
	{"S7M3", reflect.TypeFor[S7M3](), []any{(*S7M3_F6)(nil), (*S7M3_F262143)(nil)}},
	{"S8M1", reflect.TypeFor[S8M1](), []any{(*S8M1_F27)(nil)}},
	{"S9M1", reflect.TypeFor[S9M1](), []any{}},
	{"S9M2", reflect.TypeFor[S9M2](), []any{}},
	{"S9M3", reflect.TypeFor[S9M3](), []any{}},
	{"S9M4", reflect.TypeFor[S9M4](), []any{(*S9M4_F9)(nil)}},
	{"S9M5", reflect.TypeFor[S9M5](), []any{}},
	{"S10M1", reflect.TypeFor[S10M1](), []any{}},
	{"S10M2", reflect.TypeFor[S10M2](), []any{}},
	{"S10M3", reflect.TypeFor[S10M3](), []any{(*S10M3_F410)(nil), (*S10M3_F999)(nil), (*S10M3_F1003)(nil)}},
	{"S10M4", reflect.TypeFor[S10M4](), []any{}},
	{"S10M5", reflect.TypeFor[S10M5](), []any{(*S10M5_F25)(nil)}},
	{"S10M6", reflect.TypeFor[S10M6](), []any{(*S10M6_F1)(nil), (*S10M6_F375)(nil)}},
	{"S11M1", reflect.TypeFor[S11M1](), []any{}},
	{"S11M2", reflect.TypeFor[S11M2](), []any{(*S11M2_F3)(nil)}},
	{"S12M1", reflect.TypeFor[S12M1](), []any{}},
	{"S12M2", reflect.TypeFor[S12M2](), []any{}},
	{"S12M3", reflect.TypeFor[S12M3](), []any{}},
	{"S12M4", reflect.TypeFor[S12M4](), []any{(*S12M4_F15)(nil), (*S12M4_F999)(nil), (*S12M4_F10)(nil), (*S12M4_F3)(nil)}},
	{"S12M5", reflect.TypeFor[S12M5](), []any{}},
	{"S12M6", reflect.TypeFor[S12M6](), []any{}},
	{"S12M7", reflect.TypeFor[S12M7](), []any{}},
	{"S12M8", reflect.TypeFor[S12M8](), []any{}},
	{"S13M1", reflect.TypeFor[S13M1](), []any{(*S13M1_F960)(nil), (*S13M1_F6)(nil), (*S13M1_F15)(nil), (*S13M1_F14)(nil)}},
	{"S13M2", reflect.TypeFor[S13M2](), []any{}},
	{"S13M3", reflect.TypeFor[S13M3](), []any{}},
	{"S13M4", reflect.TypeFor[S13M4](), []any{}},
	{"S13M5", reflect.TypeFor[S13M5](), []any{}},
	{"S14M1", reflect.TypeFor[S14M1](), []any{(*S14M1_F647)(nil)}},
	{"S14M2", reflect.TypeFor[S14M2](), []any{(*S14M2_F15)(nil), (*S14M2_F259)(nil)}},
	{"S14M3", reflect.TypeFor[S14M3](), []any{}},
	{"S14M4", reflect.TypeFor[S14M4](), []any{}},
	{"S14M5", reflect.TypeFor[S14M5](), []any{}},
	{"S14M6", reflect.TypeFor[S14M6](), []any{(*S14M6_F5)(nil), (*S14M6_F15)(nil)}},
	{"S14M7", reflect.TypeFor[S14M7](), []any{}},
	{"S14M8", reflect.TypeFor[S14M8](), []any{(*S14M8_F2047)(nil)}},
	{"S14M9", reflect.TypeFor[S14M9](), []any{}},
	{"S15M1", reflect.TypeFor[S15M1](), []any{(*S15M1_F124)(nil), (*S15M1_F536870911)(nil)}},
	{"S15M2", reflect.TypeFor[S15M2](), []any{}},
	{"S16M1", reflect.TypeFor[S16M1](), []any{}},
	{"S17M1", reflect.TypeFor[S17M1](), []any{(*S17M1_F12)(nil), (*S17M1_F13)(nil), (*S17M1_F10)(nil)}},
	{"S17M2", reflect.TypeFor[S17M2](), []any{}},
	{"S17M3", reflect.TypeFor[S17M3](), []any{}},
	{"S17M4", reflect.TypeFor[S17M4](), []any{}},
	{"S18M1", reflect.TypeFor[S18M1](), []any{}},
	{"S18M2", reflect.TypeFor[S18M2](), []any{}},
	{"S19M1", reflect.TypeFor[S19M1](), []any{(*S19M1_F262144)(nil)}},
	{"S19M2", reflect.TypeFor[S19M2](), []any{}},
	{"S19M3", reflect.TypeFor[S19M3](), []any{}},
	{"S19M4", reflect.TypeFor[S19M4](), []any{}},
	{"S20M1", reflect.TypeFor[S20M1](), []any{}},
	{"S21M1", reflect.TypeFor[S21M1](), []any{}},
	{"S21M2", reflect.TypeFor[S21M2](), []any{}},
	{"S21M3", reflect.TypeFor[S21M3](), []any{}},
	{"S21M4", reflect.TypeFor[S21M4](), []any{}},
	{"S21M5", reflect.TypeFor[S21M5](), []any{}},
	{"S21M6", reflect.TypeFor[S21M6](), []any{(*S21M6_F354)(nil), (*S21M6_F33)(nil), (*S21M6_F2)(nil)}},
	{"S21M7", reflect.TypeFor[S21M7](), []any{}},
	{"S21M8", reflect.TypeFor[S21M8](), []any{}},
	{"S21M9", reflect.TypeFor[S21M9](), []any{}},
	{"S21M10", reflect.TypeFor[S21M10](), []any{(*S21M10_F9)(nil)}},
	{"S21M11", reflect.TypeFor[S21M11](), []any{(*S21M11_F15)(nil), (*S21M11_F2)(nil)}},
	{"S22M1", reflect.TypeFor[S22M1](), []any{}},
	{"S22M2", reflect.TypeFor[S22M2](), []any{}},
	{"S22M3", reflect.TypeFor[S22M3](), []any{}},
	{"S23M1", reflect.TypeFor[S23M1](), []any{}},
	{"S24M1", reflect.TypeFor[S24M1](), []any{(*S24M1_F1000)(nil)}},
	{"S24M2", reflect.TypeFor[S24M2](), []any{}},
	{"S24M3", reflect.TypeFor[S24M3](), []any{}},
	{"S24M4", reflect.TypeFor[S24M4](), []any{(*S24M4_F1005)(nil)}},
	{"S24M5", reflect.TypeFor[S24M5](), []any{(*S24M5_F1003)(nil)}},
	{"S24M6", reflect.TypeFor[S24M6](), []any{(*S24M6_F14)(nil), (*S24M6_F4)(nil)}},
	{"S24M7", reflect.TypeFor[S24M7](), []any{(*S24M7_F12)(nil), (*S24M7_F13)(nil)}},
	{"S24M8", reflect.TypeFor[S24M8](), []any{}},
	{"S24M9", reflect.TypeFor[S24M9](), []any{(*S24M9_F26)(nil), (*S24M9_F10)(nil)}},
	{"S24M10", reflect.TypeFor[S24M10](), []any{(*S24M10_F40)(nil), (*S24M10_F3)(nil)}},
	{"S25M1", reflect.TypeFor[S25M1](), []any{}},
	{"S26M1", reflect.TypeFor[S26M1](), []any{}},
	{"S27M1", reflect.TypeFor[S27M1](), []any{}},
	{"S28M1", reflect.TypeFor[S28M1](), []any{}},
	{"S29M1", reflect.TypeFor[S29M1](), []any{}},
	{"S30M1", reflect.TypeFor[S30M1](), []any{}},
	{"S31M1", reflect.TypeFor[S31M1](), []any{(*S31M1_F15)(nil), (*S31M1_F33554432)(nil), (*S31M1_F996)(nil), (*S31M1_F22)(nil), (*S31M1_F2)(nil)}},
	{"S31M2", reflect.TypeFor[S31M2](), []any{}},
	{"S31M3", reflect.TypeFor[S31M3](), []any{(*S31M3_F840)(nil)}},
	{"S31M4", reflect.TypeFor[S31M4](), []any{(*S31M4_F846)(nil)}},
	{"S31M5", reflect.TypeFor[S31M5](), []any{}},
	{"S32M1", reflect.TypeFor[S32M1](), []any{}},
	{"S32M2", reflect.TypeFor[S32M2](), []any{(*S32M2_F2047)(nil)}},
	{"S32M3", reflect.TypeFor[S32M3](), []any{}},
	{"S33M1", reflect.TypeFor[S33M1](), []any{(*S33M1_F27)(nil), (*S33M1_F20000)(nil)}},
	{"S33M2", reflect.TypeFor[S33M2](), []any{(*S33M2_F9)(nil), (*S33M2_F33554432)(nil)}},
	{"S33M3", reflect.TypeFor[S33M3](), []any{}},
	{"S33M4", reflect.TypeFor[S33M4](), []any{}},
	{"S33M5", reflect.TypeFor[S33M5](), []any{}},
	{"S34M1", reflect.TypeFor[S34M1](), []any{(*S34M1_F997)(nil), (*S34M1_F54)(nil)}},
	{"S34M2", reflect.TypeFor[S34M2](), []any{}},
	{"S34M3", reflect.TypeFor[S34M3](), []any{(*S34M3_F4)(nil), (*S34M3_F3)(nil), (*S34M3_F7)(nil)}},
	{"S34M4", reflect.TypeFor[S34M4](), []any{(*S34M4_F10)(nil), (*S34M4_F1003)(nil), (*S34M4_F7)(nil), (*S34M4_F2)(nil)}},
	{"S34M5", reflect.TypeFor[S34M5](), []any{(*S34M5_F7)(nil)}},
	{"S35M1", reflect.TypeFor[S35M1](), []any{(*S35M1_F2047)(nil), (*S35M1_F12)(nil)}},
	{"S35M2", reflect.TypeFor[S35M2](), []any{(*S35M2_F815)(nil), (*S35M2_F17)(nil)}},
	{"S35M3", reflect.TypeFor[S35M3](), []any{(*S35M3_F8)(nil), (*S35M3_F16)(nil), (*S35M3_F50)(nil), (*S35M3_F9)(nil)}},
	{"S35M4", reflect.TypeFor[S35M4](), []any{(*S35M4_F561)(nil)}},
	{"S36M1", reflect.TypeFor[S36M1](), []any{(*S36M1_F7)(nil), (*S36M1_F2048)(nil)}},
	{"S36M2", reflect.TypeFor[S36M2](), []any{(*S36M2_F9)(nil)}},
	{"S36M3", reflect.TypeFor[S36M3](), []any{(*S36M3_F37)(nil)}},
	{"S36M4", reflect.TypeFor[S36M4](), []any{}},
	{"S36M5", reflect.TypeFor[S36M5](), []any{(*S36M5_F33)(nil)}},
	{"S36M6", reflect.TypeFor[S36M6](), []any{}},
	{"S36M7", reflect.TypeFor[S36M7](), []any{}},
	{"S36M8", reflect.TypeFor[S36M8](), []any{}},
	{"S36M9", reflect.TypeFor[S36M9](), []any{}},
	{"S36M10", reflect.TypeFor[S36M10](), []any{}},
	{"S36M11", reflect.TypeFor[S36M11](), []any{}},
	{"S37M1", reflect.TypeFor[S37M1](), []any{(*S37M1_F997)(nil)}},
	{"S37M2", reflect.TypeFor[S37M2](), []any{(*S37M2_F1)(nil), (*S37M2_F262144)(nil)}},
	{"S37M3", reflect.TypeFor[S37M3](), []any{(*S37M3_F9)(nil), (*S37M3_F536870910)(nil)}},
	{"S37M4", reflect.TypeFor[S37M4](), []any{(*S37M4_F7)(nil), (*S37M4_F15)(nil)}},
	{"S37M5", reflect.TypeFor[S37M5](), []any{}},
	{"S37M6", reflect.TypeFor[S37M6](), []any{}},
	{"S38M1", reflect.TypeFor[S38M1](), []any{(*S38M1_F13)(nil)}},
	{"S38M2", reflect.TypeFor[S38M2](), []any{(*S38M2_F997)(nil), (*S38M2_F4)(nil)}},
	{"S38M3", reflect.TypeFor[S38M3](), []any{}},
	{"S39M1", reflect.TypeFor[S39M1](), []any{(*S39M1_F5)(nil)}},
	{"S39M2", reflect.TypeFor[S39M2](), []any{(*S39M2_F8)(nil)}},
	{"S39M3", reflect.TypeFor[S39M3](), []any{}},
	{"S39M4", reflect.TypeFor[S39M4](), []any{}},
	{"S39M5", reflect.TypeFor[S39M5](), []any{}},
	{"S39M6", reflect.TypeFor[S39M6](), []any{}},
	{"S40M1", reflect.TypeFor[S40M1](), []any{}},
	{"S41M1", reflect.TypeFor[S41M1](), []any{(*S41M1_F36)(nil)}},
	{"S41M2", reflect.TypeFor[S41M2](), []any{}},
	{"S41M3", reflect.TypeFor[S41M3](), []any{(*S41M3_F3)(nil)}},
	{"S42M1", reflect.TypeFor[S42M1](), []any{}},
	{"S43M1", reflect.TypeFor[S43M1](), []any{(*S43M1_F18999)(nil)}},
	{"S43M2", reflect.TypeFor[S43M2](), []any{(*S43M2_F7)(nil)}},
	{"S43M3", reflect.TypeFor[S43M3](), []any{}},
	{"S44M1", reflect.TypeFor[S44M1](), []any{}},
	{"S44M2", reflect.TypeFor[S44M2](), []any{}},
	{"S44M3", reflect.TypeFor[S44M3](), []any{}},
	{"S45M1", reflect.TypeFor[S45M1](), []any{(*S45M1_F10)(nil), (*S45M1_F210)(nil)}},
	{"S45M2", reflect.TypeFor[S45M2](), []any{}},
	{"S45M3", reflect.TypeFor[S45M3](), []any{}},
	{"S45M4", reflect.TypeFor[S45M4](), []any{}},
	{"S45M5", reflect.TypeFor[S45M5](), []any{}},
	{"S46M1", reflect.TypeFor[S46M1](), []any{}},
	{"S46M2", reflect.TypeFor[S46M2](), []any{}},
	{"S46M3", reflect.TypeFor[S46M3](), []any{(*S46M3_F17083450)(nil), (*S46M3_F15)(nil)}},
	{"S46M4", reflect.TypeFor[S46M4](), []any{}},
	{"S46M5", reflect.TypeFor[S46M5](), []any{}},
	{"S47M1", reflect.TypeFor[S47M1](), []any{(*S47M1_F995)(nil)}},
	{"S47M2", reflect.TypeFor[S47M2](), []any{}},
	{"S47M3", reflect.TypeFor[S47M3](), []any{(*S47M3_F18999)(nil), (*S47M3_F998)(nil), (*S47M3_F999)(nil), (*S47M3_F997)(nil)}},
	{"S47M4", reflect.TypeFor[S47M4](), []any{(*S47M4_F40)(nil), (*S47M4_F1)(nil)}},
	{"S47M5", reflect.TypeFor[S47M5](), []any{}},
	{"S47M6", reflect.TypeFor[S47M6](), []any{(*S47M6_F1)(nil), (*S47M6_F536870910)(nil)}},
	{"Rec", reflect.TypeFor[Rec](), []any{(*Rec_F7)(nil), (*Rec_F8)(nil)}},
	{"MutA", reflect.TypeFor[MutA](), []any{}},
	{"MutB", reflect.TypeFor[MutB](), []any{}},
	{"AllImplicit", reflect.TypeFor[AllImplicit](), []any{}},
	{"AllExplicit", reflect.TypeFor[AllExplicit](), []any{}},
	{"AllRepeated", reflect.TypeFor[AllRepeated](), []any{}},
	{"AllOneof", reflect.TypeFor[AllOneof](), []any{(*AllOneof_F1)(nil), (*AllOneof_F2)(nil), (*AllOneof_F3)(nil), (*AllOneof_F4)(nil), (*AllOneof_F5)(nil), (*AllOneof_F6)(nil), (*AllOneof_F7)(nil), (*AllOneof_F8)(nil), (*AllOneof_F9)(nil), (*AllOneof_F10)(nil), (*AllOneof_F11)(nil), (*AllOneof_F12)(nil), (*AllOneof_F13)(nil), (*AllOneof_F14)(nil), (*AllOneof_F15)(nil), (*AllOneof_F16)(nil), (*AllOneof_F17)(nil), (*AllOneof_F18)(nil), (*AllOneof_F19)(nil), (*AllOneof_F20)(nil), (*AllOneof_F21)(nil), (*AllOneof_F22)(nil), (*AllOneof_F23)(nil), (*AllOneof_F24)(nil), (*AllOneof_F25)(nil), (*AllOneof_F26)(nil), (*AllOneof_F27)(nil), (*AllOneof_F28)(nil), (*AllOneof_F29)(nil), (*AllOneof_F30)(nil), (*AllOneof_F31)(nil), (*AllOneof_F32)(nil)}},
	{"Maps0", reflect.TypeFor[Maps0](), []any{}},
	{"Leaf", reflect.TypeFor[Leaf](), []any{}},
	{"Maps1", reflect.TypeFor[Maps1](), []any{}},
	{"Maps2", reflect.TypeFor[Maps2](), []any{}},
	{"Maps3", reflect.TypeFor[Maps3](), []any{}},
	{"Maps4", reflect.TypeFor[Maps4](), []any{}},
	{"Maps5", reflect.TypeFor[Maps5](), []any{}},
	{"Maps6", reflect.TypeFor[Maps6](), []any{}},
	{"Maps7", reflect.TypeFor[Maps7](), []any{}},
	{"Maps8", reflect.TypeFor[Maps8](), []any{}},
	{"Maps9", reflect.TypeFor[Maps9](), []any{}},
	{"Maps10", reflect.TypeFor[Maps10](), []any{}},
	{"Maps11", reflect.TypeFor[Maps11](), []any{}},
	{"BigOneof", reflect.TypeFor[BigOneof](), []any{(*BigOneof_F1)(nil), (*BigOneof_F15)(nil), (*BigOneof_F16)(nil), (*BigOneof_F999)(nil), (*BigOneof_F1000)(nil), (*BigOneof_F1001)(nil), (*BigOneof_F1002)(nil), (*BigOneof_F2047)(nil), (*BigOneof_F2048)(nil), (*BigOneof_F262143)(nil), (*BigOneof_F262144)(nil), (*BigOneof_F33554431)(nil), (*BigOneof_F33554432)(nil), (*BigOneof_F536870911)(nil), (*BigOneof_F536870910)(nil), (*BigOneof_F17)(nil), (*BigOneof_F500)(nil), (*BigOneof_F501)(nil)}},
}
