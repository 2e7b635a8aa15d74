pragma solidity ^0.8.8;

import "contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol";
import "./VerifStateMachine.sol";

/// The abstract manager with ledgered "composable" operations: what enters and what leaves a channel
/// is recorded, nothing else of the manager is changed.
contract VerifManager is AStateChannelManagerProxy {
    mapping(bytes32 => uint) public deposited;
    mapping(bytes32 => uint) public withdrawn;
    mapping(bytes32 => mapping(address => uint)) public withdrawnBy;
    mapping(bytes32 => mapping(address => uint)) public exitsOf;
    mapping(bytes32 => mapping(address => uint)) public joinsOf;

    constructor(
        address sm,
        address facet
    ) AStateChannelManagerProxy(sm, facet) {
        p2pTime = 5;
        agreementTime = 6;
        chainFallbackTime = 7;
        challengeTime = 8;
    }

    function open(
        bytes32 channelId,
        address[] memory participants,
        uint[] memory balances
    ) public {
        require(!isChannelOpen(channelId));
        VerifState memory s;
        s.participants = participants;
        s.balances = balances;
        encodedStates[channelId][0] = abi.encode(s);
        genesisTimestamps[channelId][0] = block.timestamp;
        for (uint i = 0; i < balances.length; i++)
            deposited[channelId] += balances[i];
        emit SetState(channelId, encodedStates[channelId][0], 0, block.timestamp);
    }

    function stateOf(
        bytes32 channelId,
        uint fork
    ) public view returns (bytes memory) {
        return encodedStates[channelId][fork];
    }

    struct Seen {
        Dispute dispute;
        bool open;
        uint forkCnt;
        bytes latest;
        bytes[] states;
        uint[] timestamps;
        uint deposited;
        uint withdrawn;
        uint[] exits;
        uint[] joins;
    }

    /// everything the public interface shows about a channel, in one call
    function observe(
        bytes32 channelId,
        address[] memory who
    ) public view returns (Seen memory s) {
        s.dispute = getDispute(channelId);
        s.open = isChannelOpen(channelId);
        s.forkCnt = getForkCnt(channelId);
        s.latest = getLatestState(channelId);
        s.states = new bytes[](s.forkCnt + 2);
        s.timestamps = new uint[](s.forkCnt + 2);
        for (uint i = 0; i < s.forkCnt + 2; i++) {
            s.states[i] = encodedStates[channelId][i];
            s.timestamps[i] = getGenesisTimestamp(channelId, i);
        }
        s.deposited = deposited[channelId];
        s.withdrawn = withdrawn[channelId];
        s.exits = new uint[](who.length);
        s.joins = new uint[](who.length);
        for (uint i = 0; i < who.length; i++) {
            s.exits[i] = exitsOf[channelId][who[i]];
            s.joins[i] = joinsOf[channelId][who[i]];
        }
    }

    struct Posted {
        bool found;
        bytes encodedBlock;
        bytes signature;
        uint timestamp;
    }

    /// posted calldata of forks < forks, heights < cnts, by who; and the latest posting times
    function posted(
        bytes32 channelId,
        uint forks,
        uint cnts,
        address[] memory who
    ) public view returns (Posted[] memory p, uint[] memory latest) {
        p = new Posted[](forks * cnts * who.length);
        latest = new uint[](forks * (cnts + 1));
        uint k = 0;
        for (uint f = 0; f < forks; f++)
            for (uint c = 0; c < cnts; c++)
                for (uint i = 0; i < who.length; i++) {
                    (bool found, BlockCalldata memory b) = getBlockCallData(
                        channelId,
                        f,
                        c,
                        who[i]
                    );
                    p[k++] = Posted(
                        found,
                        b.signedBlock.encodedBlock,
                        b.signedBlock.signature,
                        b.timestamp
                    );
                }
        k = 0;
        for (uint f = 0; f < forks; f++) {
            for (uint c = 0; c < cnts; c++)
                latest[k++] = getChainLatestBlockTimestamp(channelId, f, c);
            latest[k++] = getChainLatestBlockTimestamp(
                channelId,
                f,
                type(uint).max
            );
        }
    }

    function now_() public view returns (uint) {
        return block.timestamp;
    }

    function openChannel(
        bytes32,
        bytes[] calldata,
        bytes[] calldata
    ) public virtual override {}

    function closeChannel(
        bytes32,
        bytes[] calldata,
        bytes[] calldata
    ) public virtual override {}

    function removeParticipant(
        bytes32,
        bytes[] calldata,
        bytes[] calldata
    ) public virtual override {}

    function addParticipant(
        bytes32,
        bytes[] calldata,
        bytes[] calldata
    ) public virtual override {}

    function _addParticipantComposable(
        JoinChannel memory jc
    ) internal virtual override returns (bool) {
        if (jc.amount == 11) return false;
        deposited[jc.channelId] += jc.amount;
        joinsOf[jc.channelId][jc.participant] += 1;
        return true;
    }

    function _removeParticipantComposable(
        bytes32 channelId,
        ProcessExit memory pe
    ) internal virtual override returns (bool) {
        if (pe.amount == 17) return false;
        withdrawn[channelId] += pe.amount;
        withdrawnBy[channelId][pe.participant] += pe.amount;
        exitsOf[channelId][pe.participant] += 1;
        return true;
    }
}
