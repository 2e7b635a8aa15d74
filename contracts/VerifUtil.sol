pragma solidity ^0.8.8;

import "contracts/V1/StateChannelDiamondProxy/StateChannelUtilLibrary.sol";

/// Calls the library many times in one go, reporting every single verdict.
contract VerifUtil {
    /// 0: refused, 1: accepted, 2: reverts
    function verify(
        address[][] memory lists,
        bytes memory data,
        bytes[][] memory sigs
    ) public view returns (bytes memory out) {
        out = new bytes(lists.length * sigs.length);
        uint k = 0;
        for (uint i = 0; i < lists.length; i++)
            for (uint j = 0; j < sigs.length; j++) {
                try this.one(lists[i], data, sigs[j]) returns (bool ok) {
                    out[k++] = ok ? bytes1(0x01) : bytes1(0x00);
                } catch {
                    out[k++] = 0x02;
                }
            }
    }

    function one(
        address[] memory l,
        bytes memory data,
        bytes[] memory s
    ) public pure returns (bool ok) {
        (ok, ) = StateChannelUtilLibrary.verifyThresholdSigned(l, data, s);
    }

    function signer(
        bytes memory data,
        bytes memory sig
    ) public pure returns (address) {
        return StateChannelUtilLibrary.retriveSignerAddress(data, sig);
    }

    function contains(
        address[] memory l,
        address a
    ) public pure returns (bool) {
        return StateChannelUtilLibrary.isAddressInArray(l, a);
    }

    function gather(
        address[][] memory seqs,
        address[] memory expected
    ) public pure returns (address[][] memory sets) {
        sets = new address[][](seqs.length);
        for (uint q = 0; q < seqs.length; q++) {
            address[] memory set = new address[](expected.length);
            uint n = 0;
            for (uint i = 0; i < seqs[q].length; i++)
                n = StateChannelUtilLibrary.tryInsertAddressInThresholdSet(
                    seqs[q][i],
                    set,
                    n,
                    expected
                );
            address[] memory r = new address[](n);
            for (uint i = 0; i < n; i++) r[i] = set[i];
            sets[q] = r;
        }
    }
}
